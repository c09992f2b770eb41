From 60c3540c2c939a5dc7d4d536a57d17807db2431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 01/35] fix: recognise every type stored directly in an
 interface word

One-element arrays of pointers or maps, and structs that combine a pointer
with zero-size fields, are stored directly in an interface's data word. They
were taken for indirect values, so that encoding them dereferenced the wrong
address: a nil dereference, or memory of another type read as the value.
---
 codec.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/codec.go b/codec.go
index 8f932b2..064935f 100644
--- a/codec.go
+++ b/codec.go
@@ -826,17 +826,17 @@ func align(align, size uintptr) uintptr {
 	return size
 }
 
+// inlined reports whether an interface (or reflect.Value) holding a value of
+// type t stores that value directly in its data word, as it does for pointers,
+// maps, and arrays and structs that consist of nothing else. The data word
+// holding the zero value of such a type is nil, while any other type is stored
+// behind a pointer, which is never nil.
 func inlined(t reflect.Type) bool {
-	switch t.Kind() {
-	case reflect.Pointer:
-		return true
-	case reflect.Map:
-		return true
-	case reflect.Struct:
-		return t.NumField() == 1 && inlined(t.Field(0).Type)
-	default:
+	if t.Kind() == reflect.Interface {
 		return false
 	}
+	z := reflect.Zero(t).Interface()
+	return (*iface)(unsafe.Pointer(&z)).ptr == nil
 }
 
 func isValidTag(s string) bool {
-- 
2.43.0


From 0d304ede2e38ebb00e4188a089f50744140e62f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 02/35] fix: encode and decode map keys like encoding/json

Encoding the keys of a map failed or panicked for keys that are pointers
implementing TextMarshaler, for keys implementing only one of TextMarshaler and
TextUnmarshaler, and put the color codes inside of the quotes of non-string
keys. String keys are now always used as they are, all keys are written with
the Key color, and integer keys are parsed the way the strconv package does.
---
 codec.go  | 158 ++++++++++++++++++++++++++++--------------------------
 decode.go |  40 +++++++++++++-
 encode.go |  38 ++++++++-----
 3 files changed, 146 insertions(+), 90 deletions(-)

diff --git a/codec.go b/codec.go
index 064935f..ecc3bb4 100644
--- a/codec.go
+++ b/codec.go
@@ -33,8 +33,8 @@ type (
 )
 
 type (
-	emptyFunc func(unsafe.Pointer) bool
-	sortFunc  func([]reflect.Value)
+	emptyFunc   func(unsafe.Pointer) bool
+	keyNameFunc func(reflect.Value) (string, error)
 )
 
 // Eventually consistent cache mapping go types to dynamically generated
@@ -212,14 +212,6 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 	return c
 }
 
-func constructStringCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) codec {
-	c := constructCodec(t, seen, canAddr)
-	return codec{
-		encode: constructStringEncodeFunc(c.encode),
-		decode: constructStringDecodeFunc(c.decode),
-	}
-}
-
 func constructStringEncodeFunc(encode encodeFunc) encodeFunc {
 	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
 		return e.encodeToString(b, p, encode)
@@ -329,8 +321,7 @@ func constructSliceDecodeFunc(size uintptr, t reflect.Type, decode decodeFunc) d
 	}
 }
 
-func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec {
-	var sortKeys sortFunc
+func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) (c codec) {
 	k := t.Key()
 	v := t.Elem()
 
@@ -349,75 +340,102 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 		}
 	}
 
-	kc := codec{}
 	vc := constructCodec(v, seen, false)
 
-	if k.Implements(textMarshalerType) || reflect.PointerTo(k).Implements(textUnmarshalerType) {
-		kc.encode = constructTextMarshalerEncodeFunc(k, false)
-		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
-
-		sortKeys = func(keys []reflect.Value) {
-			sort.Slice(keys, func(i, j int) bool {
-				// This is a performance abomination but the use case is rare
-				// enough that it shouldn't be a problem in practice.
-				tm1, _ := keys[i].Interface().(encoding.TextMarshaler)
-				tm2, _ := keys[j].Interface().(encoding.TextMarshaler)
-				k1, _ := tm1.MarshalText()
-				k2, _ := tm2.MarshalText()
-				return string(k1) < string(k2)
-			})
-		}
-	} else {
-		switch k.Kind() {
-		case reflect.String:
-			kc.encode = encoder.encodeKey
-			kc.decode = decoder.decodeString
-
-			sortKeys = func(keys []reflect.Value) {
-				sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
-			}
+	if inlined(v) {
+		vc.encode = constructInlineValueEncodeFunc(vc.encode)
+	}
 
-		case reflect.Int,
-			reflect.Int8,
-			reflect.Int16,
-			reflect.Int32,
-			reflect.Int64:
-			kc = constructStringCodec(k, seen, false)
+	c = constructUnsupportedTypeCodec(t)
 
-			sortKeys = func(keys []reflect.Value) {
-				sort.Slice(keys, func(i, j int) bool { return intStringsAreSorted(keys[i].Int(), keys[j].Int()) })
-			}
+	if keyName := keyNameFuncOf(k); keyName != nil {
+		c.encode = constructMapEncodeFunc(t, keyName, vc.encode)
+	}
 
-		case reflect.Uint,
-			reflect.Uintptr,
-			reflect.Uint8,
-			reflect.Uint16,
-			reflect.Uint32,
-			reflect.Uint64:
-			kc = constructStringCodec(k, seen, false)
+	if decodeKey := constructMapKeyDecodeFunc(k); decodeKey != nil {
+		c.decode = constructMapDecodeFunc(t, decodeKey, vc.decode)
+	}
 
-			sortKeys = func(keys []reflect.Value) {
-				sort.Slice(keys, func(i, j int) bool { return uintStringsAreSorted(keys[i].Uint(), keys[j].Uint()) })
-			}
+	return c
+}
 
-		default:
-			return constructUnsupportedTypeCodec(t)
+// keyNameFuncOf returns the function producing the name under which a map key
+// of type k is encoded, or nil if k is not a valid type for a map key. Like the
+// encoding/json package, the names are taken from strings as they are, then
+// from the TextMarshaler implementation of the key, then from integers.
+func keyNameFuncOf(k reflect.Type) keyNameFunc {
+	switch {
+	case k.Kind() == reflect.String:
+		return func(v reflect.Value) (string, error) { return v.String(), nil }
+
+	case k.Implements(textMarshalerType):
+		return func(v reflect.Value) (string, error) {
+			if k.Kind() == reflect.Pointer && v.IsNil() {
+				return "", nil
+			}
+			tm, _ := v.Interface().(encoding.TextMarshaler)
+			b, err := tm.MarshalText()
+			return string(b), err
 		}
 	}
 
-	if inlined(v) {
-		vc.encode = constructInlineValueEncodeFunc(vc.encode)
+	switch k.Kind() {
+	case reflect.Int,
+		reflect.Int8,
+		reflect.Int16,
+		reflect.Int32,
+		reflect.Int64:
+		return func(v reflect.Value) (string, error) { return strconv.FormatInt(v.Int(), 10), nil }
+
+	case reflect.Uint,
+		reflect.Uintptr,
+		reflect.Uint8,
+		reflect.Uint16,
+		reflect.Uint32,
+		reflect.Uint64:
+		return func(v reflect.Value) (string, error) { return strconv.FormatUint(v.Uint(), 10), nil }
 	}
 
-	return codec{
-		encode: constructMapEncodeFunc(t, kc.encode, vc.encode, sortKeys),
-		decode: constructMapDecodeFunc(t, kc.decode, vc.decode),
+	return nil
+}
+
+// constructMapKeyDecodeFunc returns the function decoding a map key of type k,
+// or nil if k is not a valid type for a map key.
+func constructMapKeyDecodeFunc(k reflect.Type) decodeFunc {
+	if reflect.PointerTo(k).Implements(textUnmarshalerType) {
+		return constructTextUnmarshalerDecodeFunc(k, true)
+	}
+
+	switch k.Kind() {
+	case reflect.String:
+		return decoder.decodeString
+
+	case reflect.Int,
+		reflect.Int8,
+		reflect.Int16,
+		reflect.Int32,
+		reflect.Int64,
+		reflect.Uint,
+		reflect.Uintptr,
+		reflect.Uint8,
+		reflect.Uint16,
+		reflect.Uint32,
+		reflect.Uint64:
+		return constructIntegerKeyDecodeFunc(k)
+	}
+
+	return nil
+}
+
+func constructIntegerKeyDecodeFunc(t reflect.Type) decodeFunc {
+	return func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+		return d.decodeIntegerKey(b, p, t)
 	}
 }
 
-func constructMapEncodeFunc(t reflect.Type, encodeKey, encodeValue encodeFunc, sortKeys sortFunc) encodeFunc {
+func constructMapEncodeFunc(t reflect.Type, keyName keyNameFunc, encodeValue encodeFunc) encodeFunc {
 	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
-		return e.encodeMap(b, p, t, encodeKey, encodeValue, sortKeys)
+		return e.encodeMap(b, p, t, keyName, encodeValue)
 	}
 }
 
@@ -998,16 +1016,6 @@ func prefix(b []byte) string {
 	return string(b[:32]) + "..."
 }
 
-func intStringsAreSorted(i0, i1 int64) bool {
-	var b0, b1 [32]byte
-	return string(strconv.AppendInt(b0[:0], i0, 10)) < string(strconv.AppendInt(b1[:0], i1, 10))
-}
-
-func uintStringsAreSorted(u0, u1 uint64) bool {
-	var b0, b1 [32]byte
-	return string(strconv.AppendUint(b0[:0], u0, 10)) < string(strconv.AppendUint(b1[:0], u1, 10))
-}
-
 //go:nosplit
 func stringToBytes(s string) []byte {
 	return unsafe.Slice(unsafe.StringData(s), len(s))
diff --git a/decode.go b/decode.go
index ad4b113..098d1a7 100644
--- a/decode.go
+++ b/decode.go
@@ -695,8 +695,18 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 			return b, syntaxError(b, "cannot decode object key string from 'null' value")
 		}
 
+		key := b
 		if b, err = decodeKey(d, b, kptr); err != nil {
-			return objectKeyError(b, err)
+			if len(key) == 0 || key[0] != '"' {
+				return objectKeyError(b, err)
+			}
+			// The key is a string which is not suitable for the type of the
+			// map keys.
+			_, r, err2 := parseValue(input)
+			if err2 != nil {
+				return r, err2
+			}
+			return r, err
 		}
 		b = skipSpaces(b)
 
@@ -727,6 +737,34 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 	}
 }
 
+// decodeIntegerKey decodes an object key into an integer of type t. Keys are
+// not constrained by the syntax of json numbers: like the encoding/json package
+// we accept anything that the strconv package does.
+func (d decoder) decodeIntegerKey(b []byte, p unsafe.Pointer, t reflect.Type) ([]byte, error) {
+	s, r, _, err := parseStringUnquote(b, nil)
+	if err != nil {
+		return r, err
+	}
+
+	v := reflect.NewAt(t, p).Elem()
+
+	if v.CanInt() {
+		n, err := strconv.ParseInt(string(s), 10, 64)
+		if err != nil || v.OverflowInt(n) {
+			return r, &UnmarshalTypeError{Value: "number " + string(s), Type: t}
+		}
+		v.SetInt(n)
+	} else {
+		n, err := strconv.ParseUint(string(s), 10, 64)
+		if err != nil || v.OverflowUint(n) {
+			return r, &UnmarshalTypeError{Value: "number " + string(s), Type: t}
+		}
+		v.SetUint(n)
+	}
+
+	return r, nil
+}
+
 func (d decoder) decodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 	if hasNullPrefix(b) {
 		*(*unsafe.Pointer)(p) = nil
diff --git a/encode.go b/encode.go
index e4c0202..eb512f1 100644
--- a/encode.go
+++ b/encode.go
@@ -411,28 +411,40 @@ func (e encoder) encodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 	return e.encodeArray(b, s.data, s.len, size, t, encode)
 }
 
-func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, encodeKey, encodeValue encodeFunc, sortKeys sortFunc) ([]byte, error) {
+func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, keyName keyNameFunc, encodeValue encodeFunc) ([]byte, error) {
 	m := reflect.NewAt(t, p).Elem()
 	if m.IsNil() {
 		return e.clrs.appendNull(b), nil
 	}
 
-	keys := m.MapKeys()
-	if sortKeys != nil && (e.flags&SortMapKeys) != 0 {
-		sortKeys(keys)
-	}
-
 	start := len(b)
 	var err error
+
+	type mapElement struct {
+		name string
+		val  reflect.Value
+	}
+	elems := make([]mapElement, 0, m.Len())
+	for iter := m.MapRange(); iter.Next(); {
+		elem := mapElement{val: iter.Value()}
+		if elem.name, err = keyName(iter.Key()); err != nil {
+			return b, err
+		}
+		elems = append(elems, elem)
+	}
+
+	if (e.flags & SortMapKeys) != 0 {
+		sort.Slice(elems, func(i, j int) bool { return elems[i].name < elems[j].name })
+	}
+
 	b = e.clrs.appendPunc(b, '{')
 
-	if len(keys) != 0 {
+	if len(elems) != 0 {
 		b = e.indentr.appendByte(b, '\n')
 
 		e.indentr.push()
-		for i := range keys {
-			k := keys[i]
-			v := m.MapIndex(k)
+		for i := range elems {
+			elem := &elems[i]
 
 			if i != 0 {
 				b = e.clrs.appendPunc(b, ',')
@@ -440,14 +452,12 @@ func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, encodeKey
 			}
 
 			b = e.indentr.appendIndent(b)
-			if b, err = encodeKey(e, b, (*iface)(unsafe.Pointer(&k)).ptr); err != nil {
-				return b[:start], err
-			}
+			b, _ = e.encodeKey(b, unsafe.Pointer(&elem.name))
 
 			b = e.clrs.appendPunc(b, ':')
 			b = e.indentr.appendByte(b, ' ')
 
-			if b, err = encodeValue(e, b, (*iface)(unsafe.Pointer(&v)).ptr); err != nil {
+			if b, err = encodeValue(e, b, (*iface)(unsafe.Pointer(&elem.val)).ptr); err != nil {
 				return b[:start], err
 			}
 		}
-- 
2.43.0


From e8e1cc495f701fb4b2539bd80ec093fda8a7e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 03/35] fix: construct the codecs of recursive, embedded and
 marshaler types like encoding/json

Values reached through embedded pointers were tested for emptiness at the
address of the pointer; recursive types other than structs overflowed the
stack; field dominance, marshaler precedence, the string and omitzero
options differed from encoding/json.
---
 codec.go  | 503 +++++++++++++++++++++++++++++++-----------------------
 decode.go |  21 +--
 encode.go |  30 +---
 parse.go  |  12 +-
 4 files changed, 310 insertions(+), 256 deletions(-)

diff --git a/codec.go b/codec.go
index ecc3bb4..39a48b2 100644
--- a/codec.go
+++ b/codec.go
@@ -66,7 +66,7 @@ func typeid(t reflect.Type) unsafe.Pointer {
 }
 
 func constructCachedCodec(t reflect.Type, cache map[unsafe.Pointer]codec) codec {
-	c := constructCodec(t, map[reflect.Type]*structType{}, t.Kind() == reflect.Pointer)
+	c := constructCodec(t, codecSet{}, t.Kind() == reflect.Pointer)
 
 	if inlined(t) {
 		c.encode = constructInlineValueEncodeFunc(c.encode)
@@ -76,7 +76,17 @@ func constructCachedCodec(t reflect.Type, cache map[unsafe.Pointer]codec) codec
 	return c
 }
 
-func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) (c codec) {
+// codecSet holds the codecs of the types that a type is made of while its own
+// codec is being constructed. A type has two codecs because the marshalers with
+// pointer receivers apply only to the values that are addressable.
+type codecSet map[codecKey]*codec
+
+type codecKey struct {
+	typ     reflect.Type
+	canAddr bool
+}
+
+func constructCodec(t reflect.Type, seen codecSet, canAddr bool) (c codec) {
 	switch t {
 	case nullType, nil:
 		c = codec{encode: encoder.encodeNull, decode: decoder.decodeNull}
@@ -100,22 +110,35 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 		c = codec{encode: encoder.encodeRawMessage, decode: decoder.decodeRawMessage}
 
 	case numberPtrType:
-		c = constructPointerCodec(numberPtrType, nil)
+		c = constructPointerCodec(numberPtrType, seen)
 
 	case durationPtrType:
-		c = constructPointerCodec(durationPtrType, nil)
+		c = constructPointerCodec(durationPtrType, seen)
 
 	case timePtrType:
-		c = constructPointerCodec(timePtrType, nil)
+		c = constructPointerCodec(timePtrType, seen)
 
 	case rawMessagePtrType:
-		c = constructPointerCodec(rawMessagePtrType, nil)
+		c = constructPointerCodec(rawMessagePtrType, seen)
 	}
 
 	if c.encode != nil {
 		return c
 	}
 
+	switch t.Kind() {
+	case reflect.Array, reflect.Slice, reflect.Map, reflect.Struct, reflect.Pointer:
+		// Used for preventing infinite recursion on types that have references
+		// to themselves.
+		key := codecKey{typ: t, canAddr: canAddr}
+		if r := seen[key]; r != nil {
+			return r.lazy()
+		}
+		r := new(codec)
+		seen[key] = r
+		defer func() { *r = c }()
+	}
+
 	switch t.Kind() {
 	case reflect.Bool:
 		c = codec{encode: encoder.encodeBool, decode: decoder.decodeBool}
@@ -184,23 +207,11 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 		c = constructUnsupportedTypeCodec(t)
 	}
 
-	p := reflect.PointerTo(t)
-
-	if canAddr {
-		switch {
-		case p.Implements(jsonMarshalerType):
-			c.encode = constructJSONMarshalerEncodeFunc(t, true)
-		case p.Implements(textMarshalerType):
-			c.encode = constructTextMarshalerEncodeFunc(t, true)
-		}
+	if encode := marshalerEncodeFuncOf(t, canAddr); encode != nil {
+		c.encode = encode
 	}
 
-	switch {
-	case t.Implements(jsonMarshalerType):
-		c.encode = constructJSONMarshalerEncodeFunc(t, false)
-	case t.Implements(textMarshalerType):
-		c.encode = constructTextMarshalerEncodeFunc(t, false)
-	}
+	p := reflect.PointerTo(t)
 
 	switch {
 	case p.Implements(jsonUnmarshalerType):
@@ -212,6 +223,34 @@ func constructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr b
 	return c
 }
 
+// marshalerEncodeFuncOf returns the function encoding values of type t by means
+// of the Marshaler or TextMarshaler which they implement, or nil if they
+// implement neither.
+func marshalerEncodeFuncOf(t reflect.Type, canAddr bool) encodeFunc {
+	p := reflect.PointerTo(t)
+
+	switch {
+	case t.Implements(jsonMarshalerType):
+		return constructJSONMarshalerEncodeFunc(t, false)
+	case canAddr && p.Implements(jsonMarshalerType):
+		return constructJSONMarshalerEncodeFunc(t, true)
+	case t.Implements(textMarshalerType):
+		return constructTextMarshalerEncodeFunc(t, false)
+	case canAddr && p.Implements(textMarshalerType):
+		return constructTextMarshalerEncodeFunc(t, true)
+	}
+
+	return nil
+}
+
+// lazy returns a codec which uses c, which may not be constructed yet.
+func (c *codec) lazy() codec {
+	return codec{
+		encode: func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) { return c.encode(e, b, p) },
+		decode: func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) { return c.decode(d, b, p) },
+	}
+}
+
 func constructStringEncodeFunc(encode encodeFunc) encodeFunc {
 	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
 		return e.encodeToString(b, p, encode)
@@ -230,7 +269,7 @@ func constructStringToIntDecodeFunc(t reflect.Type, decode decodeFunc) decodeFun
 	}
 }
 
-func constructArrayCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) codec {
+func constructArrayCodec(t reflect.Type, seen codecSet, canAddr bool) codec {
 	e := t.Elem()
 	c := constructCodec(e, seen, canAddr)
 	s := alignedSize(e)
@@ -254,7 +293,7 @@ func constructArrayDecodeFunc(size uintptr, t reflect.Type, decode decodeFunc) d
 	}
 }
 
-func constructSliceCodec(t reflect.Type, seen map[reflect.Type]*structType) codec {
+func constructSliceCodec(t reflect.Type, seen codecSet) codec {
 	e := t.Elem()
 	s := alignedSize(e)
 
@@ -321,7 +360,7 @@ func constructSliceDecodeFunc(size uintptr, t reflect.Type, decode decodeFunc) d
 	}
 }
 
-func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) (c codec) {
+func constructMapCodec(t reflect.Type, seen codecSet) (c codec) {
 	k := t.Key()
 	v := t.Elem()
 
@@ -449,7 +488,7 @@ func constructMapDecodeFunc(t reflect.Type, decodeKey, decodeValue decodeFunc) d
 	}
 }
 
-func constructStructCodec(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) codec {
+func constructStructCodec(t reflect.Type, seen codecSet, canAddr bool) codec {
 	st := constructStructType(t, seen, canAddr)
 	return codec{
 		encode: constructStructEncodeFunc(st),
@@ -457,31 +496,23 @@ func constructStructCodec(t reflect.Type, seen map[reflect.Type]*structType, can
 	}
 }
 
-func constructStructType(t reflect.Type, seen map[reflect.Type]*structType, canAddr bool) *structType {
-	// Used for preventing infinite recursion on types that have pointers to
-	// themselves.
-	st := seen[t]
-
-	if st == nil {
-		st = &structType{
-			fields:      make([]structField, 0, t.NumField()),
-			fieldsIndex: make(map[string]*structField),
-			ficaseIndex: make(map[string]*structField),
-			typ:         t,
-		}
+func constructStructType(t reflect.Type, seen codecSet, canAddr bool) *structType {
+	fields := structFieldsOf(t, seen, canAddr)
+	st := &structType{
+		fields:      fields,
+		fieldsIndex: make(map[string]*structField, len(fields)),
+		ficaseIndex: make(map[string]*structField, len(fields)),
+		typ:         t,
+	}
 
-		seen[t] = st
-		st.fields = appendStructFields(st.fields, t, 0, seen, canAddr)
-
-		for i := range st.fields {
-			f := &st.fields[i]
-			s := strings.ToLower(f.name)
-			st.fieldsIndex[f.name] = f
-			// When there is ambiguity because multiple fields have the same
-			// case-insensitive representation, the first field must win.
-			if _, exists := st.ficaseIndex[s]; !exists {
-				st.ficaseIndex[s] = f
-			}
+	for i := range fields {
+		f := &fields[i]
+		s := string(appendToLower(nil, []byte(f.name)))
+		st.fieldsIndex[f.name] = f
+		// When there is ambiguity because multiple fields have the same
+		// case-insensitive representation, the first field must win.
+		if _, exists := st.ficaseIndex[s]; !exists {
+			st.ficaseIndex[s] = f
 		}
 	}
 
@@ -500,190 +531,154 @@ func constructStructDecodeFunc(st *structType) decodeFunc {
 	}
 }
 
-func constructEmbeddedStructPointerCodec(t reflect.Type, unexported bool, offset uintptr, field codec) codec {
-	return codec{
-		encode: constructEmbeddedStructPointerEncodeFunc(t, unexported, offset, field.encode),
-		decode: constructEmbeddedStructPointerDecodeFunc(t, unexported, offset, field.decode),
-	}
-}
-
-func constructEmbeddedStructPointerEncodeFunc(t reflect.Type, unexported bool, offset uintptr, encode encodeFunc) encodeFunc {
-	return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
-		return e.encodeEmbeddedStructPointer(b, p, t, unexported, offset, encode)
-	}
-}
-
-func constructEmbeddedStructPointerDecodeFunc(t reflect.Type, unexported bool, offset uintptr, decode decodeFunc) decodeFunc {
-	return func(d decoder, b []byte, p unsafe.Pointer) ([]byte, error) {
-		return d.decodeEmbeddedStructPointer(b, p, t, unexported, offset, decode)
+// structFieldsOf returns the fields that the JSON representation of t is made
+// of, in the order of their index. It applies the same rules as encoding/json:
+// the Go visibility rules for embedded fields, amended by the JSON tags.
+func structFieldsOf(t reflect.Type, seen codecSet, canAddr bool) []structField {
+	// embeddedStruct is a struct whose fields are candidates: t itself, then the
+	// structs that are embedded in it, level by level.
+	type embeddedStruct struct {
+		typ     reflect.Type
+		index   []int
+		hops    []structHop
+		offset  uintptr
+		canAddr bool
 	}
-}
-
-type embeddedField struct {
-	index      int
-	offset     uintptr
-	pointer    bool
-	unexported bool
-	subtype    *structType
-	subfield   *structField
-}
-
-func appendStructFields(fields []structField, t reflect.Type, offset uintptr, seen map[reflect.Type]*structType, canAddr bool) []structField {
-	names := make(map[string]struct{})
-	embedded := make([]embeddedField, 0, 10)
 
-	for i, n := 0, t.NumField(); i < n; i++ {
-		f := t.Field(i)
+	var candidates []structField
+	var count, nextCount map[reflect.Type]int // times that a type is embedded at a level
+	visited := map[reflect.Type]bool{}
+	next := []embeddedStruct{{typ: t, canAddr: canAddr}}
 
-		var (
-			name             = f.Name
-			anonymous        = f.Anonymous
-			isTag            = false
-			omitempty        = false
-			stringifyEnabled = false
-			unexported       = len(f.PkgPath) != 0
-		)
-
-		if unexported && !anonymous { // unexported
-			continue
-		}
+	for len(next) > 0 {
+		current := next
+		next = nil
+		count, nextCount = nextCount, map[reflect.Type]int{}
 
-		if parts := strings.Split(f.Tag.Get("json"), ","); len(parts) != 0 {
-			if len(parts[0]) != 0 {
-				name, isTag = parts[0], true
-			}
-
-			if name == "-" && len(parts) == 1 { // ignored
+		for _, s := range current {
+			if visited[s.typ] {
 				continue
 			}
+			visited[s.typ] = true
+
+			for i, n := 0, s.typ.NumField(); i < n; i++ {
+				f := s.typ.Field(i)
+				typ := f.Type
+				ptr := typ.Name() == "" && typ.Kind() == reflect.Pointer
+				if ptr {
+					typ = typ.Elem()
+				}
 
-			if !isValidTag(name) {
-				name = f.Name
-			}
+				if !f.IsExported() && (!f.Anonymous || typ.Kind() != reflect.Struct) {
+					continue
+				}
 
-			for _, tag := range parts[1:] {
-				switch tag {
-				case "omitempty":
-					omitempty = true
-				case "string":
-					stringifyEnabled = true
+				tag := f.Tag.Get("json")
+				if tag == "-" { // ignored
+					continue
 				}
-			}
-		}
 
-		if anonymous && !isTag { // embedded
-			typ := f.Type
-			ptr := f.Type.Kind() == reflect.Pointer
+				parts := strings.Split(tag, ",")
+				name, options := parts[0], parts[1:]
+				isTag := isValidTag(name)
+				if !isTag {
+					name = f.Name
+				}
 
-			if ptr {
-				typ = f.Type.Elem()
-			}
+				field := structField{
+					hops:   s.hops,
+					offset: s.offset + f.Offset,
+					tag:    isTag,
+					name:   name,
+					index:  append(s.index[:len(s.index):len(s.index)], i),
+					typ:    f.Type,
+				}
 
-			if typ.Kind() == reflect.Struct {
-				// When the embedded fields is inlined the fields can be looked
-				// up by offset from the address of the wrapping object, so we
-				// simply add the embedded struct fields to the list of fields
-				// of the current struct type.
-				subtype := constructStructType(typ, seen, canAddr)
-
-				for j := range subtype.fields {
-					embedded = append(embedded, embeddedField{
-						index:      i<<32 | j,
-						offset:     offset + f.Offset,
-						pointer:    ptr,
-						unexported: unexported,
-						subtype:    subtype,
-						subfield:   &subtype.fields[j],
-					})
+				if f.Anonymous && !isTag && typ.Kind() == reflect.Struct {
+					if nextCount[typ]++; nextCount[typ] == 1 {
+						e := embeddedStruct{typ: typ, index: field.index, hops: s.hops, offset: field.offset, canAddr: s.canAddr}
+						if ptr {
+							hop := structHop{typ: typ, offset: field.offset, unexported: !f.IsExported()}
+							e.hops = append(s.hops[:len(s.hops):len(s.hops)], hop)
+							e.offset, e.canAddr = 0, true
+						}
+						next = append(next, e)
+					}
+					continue
 				}
 
-				continue
-			}
+				field.canAddr = s.canAddr
+				for _, option := range options {
+					switch option {
+					case "omitempty":
+						field.empty = emptyFuncOf(f.Type)
+					case "omitzero":
+						field.isZero = zeroFuncOf(f.Type)
+					case "string":
+						field.stringify = true
+					}
+				}
 
-			if unexported { // ignore unexported non-struct types
-				continue
+				candidates = append(candidates, field)
+				if count[s.typ] > 1 {
+					// The fields of a type that is embedded more than once at
+					// the same level are ambiguous.
+					candidates = append(candidates, field)
+				}
 			}
 		}
-
-		c := constructCodec(f.Type, seen, canAddr)
-
-		if stringifyEnabled {
-			c = stringify(&f, c)
-		}
-
-		fields = append(fields, structField{
-			codec:     c,
-			offset:    offset + f.Offset,
-			empty:     emptyFuncOf(f.Type),
-			tag:       isTag,
-			omitempty: omitempty,
-			name:      name,
-			index:     i << 32,
-			typ:       f.Type,
-			zero:      reflect.Zero(f.Type),
-		})
-
-		names[name] = struct{}{}
 	}
 
-	// Only unambiguous embedded fields must be serialized.
-	ambiguousNames, ambiguousTags := ambiguousNameTagCount(names, embedded)
-
-	for _, embfield := range embedded {
-		subfield := *embfield.subfield
-
-		if ambiguousNames[subfield.name] > 1 && (!subfield.tag || ambiguousTags[subfield.name] != 1) {
-			continue // ambiguous embedded field
+	// Among the fields of the same name the shallowest one is retained, unless
+	// it is ambiguous; at the same depth a tagged name has precedence.
+	sort.SliceStable(candidates, func(i, j int) bool {
+		f, g := &candidates[i], &candidates[j]
+		if f.name != g.name {
+			return f.name < g.name
 		}
-
-		if embfield.pointer {
-			subfield.codec = constructEmbeddedStructPointerCodec(embfield.subtype.typ, embfield.unexported, subfield.offset, subfield.codec)
-			subfield.offset = embfield.offset
-		} else {
-			subfield.offset += embfield.offset
+		if len(f.index) != len(g.index) {
+			return len(f.index) < len(g.index)
 		}
+		return f.tag && !g.tag
+	})
 
-		// To prevent dominant flags more than one level below the embedded one.
-		subfield.tag = false
-
-		// To ensure the order of the fields in the output is the same is in the
-		// struct type.
-		subfield.index = embfield.index
-
-		fields = append(fields, subfield)
-	}
-
-	for i := range fields {
-		fields[i].json = encodeString(fields[i].name, 0)
-		fields[i].html = encodeString(fields[i].name, EscapeHTML)
+	fields := make([]structField, 0, len(candidates))
+	for i, n := 0, 0; i < len(candidates); i += n {
+		f := candidates[i]
+		for n = 1; i+n < len(candidates) && candidates[i+n].name == f.name; n++ {
+		}
+		if n > 1 {
+			if g := candidates[i+1]; len(f.index) == len(g.index) && f.tag == g.tag {
+				continue // ambiguous embedded field
+			}
+		}
+		fields = append(fields, f)
 	}
 
-	sort.Slice(fields, func(i, j int) bool { return fields[i].index < fields[j].index })
-	return fields
-}
-
-func ambiguousNameTagCount(names map[string]struct{}, embedded []embeddedField) (map[string]int, map[string]int) {
-	ambiguousNames := make(map[string]int)
-	ambiguousTags := make(map[string]int)
-
-	// Embedded types can never override a field that was already present at
-	// the top-level.
-	for name := range names {
-		ambiguousNames[name]++
-		ambiguousTags[name]++
-	}
+	sort.Slice(fields, func(i, j int) bool {
+		f, g := fields[i].index, fields[j].index
+		for k := 0; k < len(f) && k < len(g); k++ {
+			if f[k] != g[k] {
+				return f[k] < g[k]
+			}
+		}
+		return len(f) < len(g)
+	})
 
-	for _, embfield := range embedded {
-		ambiguousNames[embfield.subfield.name]++
-		if embfield.subfield.tag {
-			ambiguousTags[embfield.subfield.name]++
+	for i := range fields {
+		f := &fields[i]
+		f.codec = constructCodec(f.typ, seen, f.canAddr)
+		if f.stringify {
+			f.codec = stringify(f.typ, f.codec, seen, f.canAddr)
 		}
+		f.json = encodeString(f.name, 0)
+		f.html = encodeString(f.name, EscapeHTML)
 	}
 
-	return ambiguousNames, ambiguousTags
+	return fields
 }
 
-func stringify(f *reflect.StructField, c codec) codec {
+func stringify(t reflect.Type, c codec, seen codecSet, canAddr bool) codec {
 	// https://golang.org/pkg/encoding/json/#Marshal
 	//
 	// The "string" option signals that a field is stored as JSON inside
@@ -691,10 +686,12 @@ func stringify(f *reflect.StructField, c codec) codec {
 	// floating point, integer, or boolean types. This extra level of
 	// encoding is sometimes used when communicating with JavaScript
 	// programs:
-	typ := f.Type
+	typ := t
+	encode := c.encode
 
-	if typ.Kind() == reflect.Pointer {
-		typ = typ.Elem()
+	if t.Name() == "" && t.Kind() == reflect.Pointer {
+		typ, canAddr = t.Elem(), true
+		encode = constructCodec(typ, seen, canAddr).encode
 	}
 
 	switch typ.Kind() {
@@ -709,14 +706,22 @@ func stringify(f *reflect.StructField, c codec) codec {
 		reflect.Uint16,
 		reflect.Uint32,
 		reflect.Uint64:
-		c.encode = constructStringEncodeFunc(c.encode)
 		c.decode = constructStringToIntDecodeFunc(typ, c.decode)
 	case reflect.Bool,
 		reflect.Float32,
 		reflect.Float64,
 		reflect.String:
-		c.encode = constructStringEncodeFunc(c.encode)
 		c.decode = constructStringDecodeFunc(c.decode)
+	default:
+		return c
+	}
+
+	// The option has no effect on the output of marshalers, nor on null.
+	if marshalerEncodeFuncOf(typ, canAddr) == nil {
+		c.encode = constructStringEncodeFunc(encode)
+		if typ != t {
+			c.encode = constructPointerEncodeFunc(typ, c.encode)
+		}
 	}
 
 	return c
@@ -729,7 +734,7 @@ func encodeString(s string, flags AppendFlags) string {
 	return *(*string)(unsafe.Pointer(&b))
 }
 
-func constructPointerCodec(t reflect.Type, seen map[reflect.Type]*structType) codec {
+func constructPointerCodec(t reflect.Type, seen codecSet) codec {
 	e := t.Elem()
 	c := constructCodec(e, seen, true)
 	return codec{
@@ -863,7 +868,7 @@ func isValidTag(s string) bool {
 	}
 	for _, c := range s {
 		switch {
-		case strings.ContainsRune("!#$%&()*+-./:<=>?@[]^_{|}~ ", c):
+		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c):
 			// Backslash and quote chars are reserved, but
 			// otherwise any punctuation chars are allowed
 			// in a tag name.
@@ -928,12 +933,41 @@ func emptyFuncOf(t reflect.Type) emptyFunc {
 		return func(p unsafe.Pointer) bool { return *(*unsafe.Pointer)(p) == nil }
 
 	case reflect.Interface:
-		return func(p unsafe.Pointer) bool { return (*iface)(p).ptr == nil }
+		// The first word of an interface is nil if and only if it is a nil
+		// interface, whether or not it has methods.
+		return func(p unsafe.Pointer) bool { return (*iface)(p).typ == nil }
 	}
 
 	return func(unsafe.Pointer) bool { return false }
 }
 
+// zeroFuncOf returns the function that decides whether a field of type t which
+// has the "omitzero" option is omitted.
+func zeroFuncOf(t reflect.Type) emptyFunc {
+	type isZeroer interface{ IsZero() bool }
+	isZeroerType := reflect.TypeOf((*isZeroer)(nil)).Elem()
+
+	switch {
+	case t.Implements(isZeroerType):
+		return func(p unsafe.Pointer) bool {
+			v := reflect.NewAt(t, p).Elem()
+			switch {
+			case t.Kind() != reflect.Pointer && t.Kind() != reflect.Interface:
+			case v.IsNil():
+				return true
+			case t.Kind() == reflect.Interface && v.Elem().Kind() == reflect.Pointer && v.Elem().IsNil():
+				return true
+			}
+			return v.Interface().(isZeroer).IsZero()
+		}
+
+	case reflect.PointerTo(t).Implements(isZeroerType):
+		return func(p unsafe.Pointer) bool { return reflect.NewAt(t, p).Interface().(isZeroer).IsZero() }
+	}
+
+	return func(p unsafe.Pointer) bool { return reflect.NewAt(t, p).Elem().IsZero() }
+}
+
 type iface struct {
 	typ unsafe.Pointer
 	ptr unsafe.Pointer
@@ -954,16 +988,53 @@ type structType struct {
 
 type structField struct {
 	codec     codec
-	offset    uintptr
-	empty     emptyFunc
+	hops      []structHop // embedded pointers that lead to the field
+	offset    uintptr     // from the last of the hops, or from the struct
+	empty     emptyFunc   // of the "omitempty" option, nil without it
+	isZero    emptyFunc   // of the "omitzero" option, nil without it
 	tag       bool
-	omitempty bool
+	stringify bool
+	canAddr   bool
 	json      string
 	html      string
 	name      string
 	typ       reflect.Type
-	zero      reflect.Value
-	index     int
+	index     []int
+}
+
+// structHop is an embedded pointer to a struct of type typ.
+type structHop struct {
+	typ        reflect.Type
+	offset     uintptr
+	unexported bool
+}
+
+// lookup returns the address of the field in the struct at p, or nil if an
+// embedded pointer that leads to the field is nil.
+func (f *structField) lookup(p unsafe.Pointer) unsafe.Pointer {
+	for i := range f.hops {
+		if p = *(*unsafe.Pointer)(unsafe.Pointer(uintptr(p) + f.hops[i].offset)); p == nil {
+			return nil
+		}
+	}
+	return unsafe.Pointer(uintptr(p) + f.offset)
+}
+
+// create is like lookup, but allocates the structs that embedded pointers lead
+// to where these are nil.
+func (f *structField) create(p unsafe.Pointer) (unsafe.Pointer, error) {
+	for i := range f.hops {
+		hop := &f.hops[i]
+		pp := (*unsafe.Pointer)(unsafe.Pointer(uintptr(p) + hop.offset))
+		if *pp == nil {
+			if hop.unexported {
+				return nil, fmt.Errorf("json: cannot set embedded pointer to unexported struct: %s", hop.typ)
+			}
+			*pp = unsafe.Pointer(reflect.New(hop.typ).Pointer())
+		}
+		p = *pp
+	}
+	return unsafe.Pointer(uintptr(p) + f.offset), nil
 }
 
 func unmarshalTypeError(b []byte, t reflect.Type) error {
diff --git a/decode.go b/decode.go
index 098d1a7..05ce62a 100644
--- a/decode.go
+++ b/decode.go
@@ -975,7 +975,12 @@ func (d decoder) decodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			continue
 		}
 
-		if b, err = f.codec.decode(d, b, unsafe.Pointer(uintptr(p)+f.offset)); err != nil {
+		v, err := f.create(p)
+		if err == nil {
+			b, err = f.codec.decode(d, b, v)
+		}
+
+		if err != nil {
 			_, r, err2 := parseValue(input)
 			if err2 != nil {
 				return r, err2
@@ -992,20 +997,6 @@ func (d decoder) decodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 	}
 }
 
-func (d decoder) decodeEmbeddedStructPointer(b []byte, p unsafe.Pointer, t reflect.Type, unexported bool, offset uintptr, decode decodeFunc) ([]byte, error) {
-	v := *(*unsafe.Pointer)(p)
-
-	if v == nil {
-		if unexported {
-			return nil, fmt.Errorf("json: cannot set embedded pointer to unexported struct: %s", t)
-		}
-		v = unsafe.Pointer(reflect.New(t).Pointer())
-		*(*unsafe.Pointer)(p) = v
-	}
-
-	return decode(d, b, unsafe.Pointer(uintptr(v)+offset))
-}
-
 func (d decoder) decodePointer(b []byte, p unsafe.Pointer, t reflect.Type, decode decodeFunc) ([]byte, error) {
 	if hasNullPrefix(b) {
 		pp := *(*unsafe.Pointer)(p)
diff --git a/encode.go b/encode.go
index eb512f1..33890a2 100644
--- a/encode.go
+++ b/encode.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding"
 	"encoding/base64"
-	"errors"
 	"math"
 	"reflect"
 	"sort"
@@ -277,7 +276,11 @@ func (e encoder) doEncodeString(b []byte, p unsafe.Pointer) ([]byte, error) {
 func (e encoder) encodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) ([]byte, error) {
 	i := len(b)
 
-	b, err := encode(e, b, p)
+	// Colors apply to the resulting string, not to the value inside of it.
+	plain := e
+	plain.clrs = nil
+
+	b, err := encode(plain, b, p)
 	if err != nil {
 		return b, err
 	}
@@ -285,7 +288,7 @@ func (e encoder) encodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) (
 	j := len(b)
 	s := b[i:]
 
-	if b, err = e.doEncodeString(b, unsafe.Pointer(&s)); err != nil {
+	if b, err = e.encodeString(b, unsafe.Pointer(&s)); err != nil {
 		return b, err
 	}
 
@@ -713,9 +716,9 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 	for i := range st.fields {
 		f := &st.fields[i]
-		v := unsafe.Pointer(uintptr(p) + f.offset)
+		v := f.lookup(p)
 
-		if f.omitempty && f.empty(v) {
+		if v == nil || (f.empty != nil && f.empty(v)) || (f.isZero != nil && f.isZero(v)) {
 			continue
 		}
 
@@ -730,7 +733,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			k = f.json
 		}
 
-		lengthBeforeKey := len(b)
 		b = e.indentr.appendIndent(b)
 
 		if e.clrs == nil {
@@ -746,10 +748,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		b = e.indentr.appendByte(b, ' ')
 
 		if b, err = f.codec.encode(e, b, v); err != nil {
-			if errors.Is(err, rollback{}) {
-				b = b[:lengthBeforeKey]
-				continue
-			}
 			return b[:start], err
 		}
 
@@ -767,18 +765,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 	return b, nil
 }
 
-type rollback struct{}
-
-func (rollback) Error() string { return "rollback" }
-
-func (e encoder) encodeEmbeddedStructPointer(b []byte, p unsafe.Pointer, _ reflect.Type, _ bool, offset uintptr, encode encodeFunc) ([]byte, error) {
-	p = *(*unsafe.Pointer)(p)
-	if p == nil {
-		return b, rollback{}
-	}
-	return encode(e, b, unsafe.Pointer(uintptr(p)+offset))
-}
-
 func (e encoder) encodePointer(b []byte, p unsafe.Pointer, _ reflect.Type, encode encodeFunc) ([]byte, error) {
 	if p = *(*unsafe.Pointer)(p); p != nil {
 		return encode(e, b, p)
diff --git a/parse.go b/parse.go
index f6efe9f..9118830 100644
--- a/parse.go
+++ b/parse.go
@@ -722,9 +722,15 @@ func appendToLower(b, s []byte) []byte {
 	return b
 }
 
+// foldRune returns the representative of the runes that are equal to r under
+// Unicode case-folding. It is the same for all of them, and the lower case form
+// where there are only two.
 func foldRune(r rune) rune {
-	if r = unicode.SimpleFold(r); 'A' <= r && r <= 'Z' {
-		r += 'a' - 'A'
+	for {
+		next := unicode.SimpleFold(r)
+		if next <= r { // r is the greatest of them, so next is the smallest
+			return unicode.SimpleFold(next)
+		}
+		r = next
 	}
-	return r
 }
-- 
2.43.0


From 22d70f97b55bd3fcba94bc620e9936c4a222b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 04/35] fix: return the error of the write that fails from
 Encoder.Encode

---
 json.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/json.go b/json.go
index cb27c32..d700800 100644
--- a/json.go
+++ b/json.go
@@ -408,12 +408,10 @@ func (enc *Encoder) Encode(v interface{}) error {
 	buf.data = append(buf.data, '\n')
 	b := buf.data
 
-	if _, err2 := enc.writer.Write(b); err2 != nil {
-		enc.err = err2
-	}
+	_, enc.err = enc.writer.Write(b)
 
 	encoderBufferPool.Put(buf)
-	return err
+	return enc.err
 }
 
 // SetEscapeHTML is documented at https://golang.org/pkg/encoding/json/#Encoder.SetEscapeHTML
-- 
2.43.0


From 560abf47392f677ed2649d7c4416104cc8712b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 05/35] fix: refuse to encode a Number with trailing garbage

---
 encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 33890a2..210e537 100644
--- a/encode.go
+++ b/encode.go
@@ -134,7 +134,10 @@ func (e encoder) encodeNumber(b []byte, p unsafe.Pointer) ([]byte, error) {
 		n = "0"
 	}
 
-	_, _, err := parseNumber(stringToBytes(string(n)))
+	_, r, err := parseNumber(stringToBytes(string(n)))
+	if err == nil && len(r) != 0 {
+		err = syntaxError(r, "invalid character '%c' in number literal", r[0])
+	}
 	if err != nil {
 		return b, err
 	}
-- 
2.43.0


From 9b47d8e4f2411944b3dcf1d9837f04ec35b5f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 06/35] fix: color a nil byte slice as null only

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 210e537..8c61af3 100644
--- a/encode.go
+++ b/encode.go
@@ -300,7 +300,7 @@ func (e encoder) encodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) (
 }
 
 func (e encoder) encodeBytes(b []byte, p unsafe.Pointer) ([]byte, error) {
-	if e.clrs == nil {
+	if e.clrs == nil || *(*[]byte)(p) == nil {
 		return e.doEncodeBytes(b, p)
 	}
 
-- 
2.43.0


From 1eb8bd5bced9ecca01742b852ead1ad9afd88ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 07/35] fix: refuse to encode a time that RFC 3339 cannot
 represent

---
 encode.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/encode.go b/encode.go
index 8c61af3..c59ed5c 100644
--- a/encode.go
+++ b/encode.go
@@ -360,19 +360,18 @@ func (e encoder) encodeDuration(b []byte, p unsafe.Pointer) ([]byte, error) {
 }
 
 func (e encoder) encodeTime(b []byte, p unsafe.Pointer) ([]byte, error) {
+	// Not every time can be represented, see the MarshalJSON method of time.Time.
+	s, err := (*time.Time)(p).MarshalJSON()
+	if err != nil {
+		return b, &MarshalerError{Type: timeType, Err: err}
+	}
+
 	if e.clrs == nil {
-		t := *(*time.Time)(p)
-		b = append(b, '"')
-		b = t.AppendFormat(b, time.RFC3339Nano)
-		b = append(b, '"')
-		return b, nil
+		return append(b, s...), nil
 	}
 
-	t := *(*time.Time)(p)
 	b = append(b, e.clrs.Time...)
-	b = append(b, '"')
-	b = t.AppendFormat(b, time.RFC3339Nano)
-	b = append(b, '"')
+	b = append(b, s...)
 	b = append(b, ansiReset...)
 	return b, nil
 }
-- 
2.43.0


From e55635983a28dedde69e3fe573e1c47eb51675a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 08/35] fix: indent a struct whose fields are all omitted as {}

---
 encode.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/encode.go b/encode.go
index c59ed5c..3c15c23 100644
--- a/encode.go
+++ b/encode.go
@@ -710,10 +710,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 	b = e.clrs.appendPunc(b, '{')
 
-	if len(st.fields) > 0 {
-		b = e.indentr.appendByte(b, '\n')
-	}
-
 	e.indentr.push()
 
 	for i := range st.fields {
@@ -726,8 +722,8 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 		if n != 0 {
 			b = e.clrs.appendPunc(b, ',')
-			b = e.indentr.appendByte(b, '\n')
 		}
+		b = e.indentr.appendByte(b, '\n')
 
 		if (e.flags & EscapeHTML) != 0 {
 			k = f.html
@@ -756,13 +752,13 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		n++
 	}
 
+	e.indentr.pop()
+
 	if n > 0 {
 		b = e.indentr.appendByte(b, '\n')
+		b = e.indentr.appendIndent(b)
 	}
 
-	e.indentr.pop()
-	b = e.indentr.appendIndent(b)
-
 	b = e.clrs.appendPunc(b, '}')
 	return b, nil
 }
-- 
2.43.0


From c5af4faa9ca30e1b8f1bd0ffc2376c5cd64230cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 09/35] fix: report an invalid RawMessage in a map that is not
 sorted

---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 3c15c23..74f7438 100644
--- a/encode.go
+++ b/encode.go
@@ -632,7 +632,7 @@ func (e encoder) encodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 				v := m[k]
 				b, err = e.encodeRawMessage(b, unsafe.Pointer(&v))
 				if err != nil {
-					break
+					return b, err
 				}
 
 				i++
-- 
2.43.0


From b9bf1b168b998e7ae56789983733ed95d9c1596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 10/35] fix: keep the indentation depth of a failed call out of
 the next one

---
 encode.go | 10 +++++-----
 json.go   | 17 +++++++++++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/encode.go b/encode.go
index 74f7438..e801099 100644
--- a/encode.go
+++ b/encode.go
@@ -527,7 +527,7 @@ func (e encoder) encodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 				b = e.clrs.appendPunc(b, ':')
 				b = e.indentr.appendByte(b, ' ')
 
-				b, err = Append(b, v, e.flags, e.clrs, e.indentr)
+				b, err = e.encodeAny(b, v)
 				if err != nil {
 					return b, err
 				}
@@ -573,7 +573,7 @@ func (e encoder) encodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 			b = e.clrs.appendPunc(b, ':')
 			b = e.indentr.appendByte(b, ' ')
 
-			b, err = Append(b, elem.val, e.flags, e.clrs, e.indentr)
+			b, err = e.encodeAny(b, elem.val)
 			if err != nil {
 				break
 			}
@@ -771,11 +771,11 @@ func (e encoder) encodePointer(b []byte, p unsafe.Pointer, _ reflect.Type, encod
 }
 
 func (e encoder) encodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
-	return Append(b, *(*interface{})(p), e.flags, e.clrs, e.indentr)
+	return e.encodeAny(b, *(*interface{})(p))
 }
 
 func (e encoder) encodeMaybeEmptyInterface(b []byte, p unsafe.Pointer, t reflect.Type) ([]byte, error) {
-	return Append(b, reflect.NewAt(t, p).Elem().Interface(), e.flags, e.clrs, e.indentr)
+	return e.encodeAny(b, reflect.NewAt(t, p).Elem().Interface())
 }
 
 func (e encoder) encodeUnsupportedTypeError(b []byte, _ unsafe.Pointer, t reflect.Type) ([]byte, error) {
@@ -1015,7 +1015,7 @@ func (e encoder) encodeJSONMarshaler(b []byte, p unsafe.Pointer, t reflect.Type,
 	}
 
 	// We effectively delegate to the encodeRawMessage method.
-	return Append(b, RawMessage(j), e.flags, e.clrs, e.indentr)
+	return e.encodeAny(b, RawMessage(j))
 }
 
 func (e encoder) encodeTextMarshaler(b []byte, p unsafe.Pointer, t reflect.Type, pointer bool) ([]byte, error) {
diff --git a/json.go b/json.go
index d700800..de382da 100644
--- a/json.go
+++ b/json.go
@@ -120,10 +120,23 @@ const (
 // construct an [Indenter] via [NewIndenter] to indent the output. The clrs
 // argument may be nil to disable colorization.
 func Append(b []byte, x interface{}, flags AppendFlags, clrs *Colors, indentr *Indenter) ([]byte, error) {
+	if indentr != nil {
+		// The depth changes while encoding. It is tracked in a copy so that it
+		// doesn't leak out of a call that fails or panics half way through.
+		in := *indentr
+		in.depth = 0
+		indentr = &in
+	}
+
+	return encoder{flags: flags, clrs: clrs, indentr: indentr}.encodeAny(b, x)
+}
+
+// encodeAny appends the json representation of x to b.
+func (e encoder) encodeAny(b []byte, x interface{}) ([]byte, error) {
 	if x == nil {
 		// Special case for nil values because it makes the rest of the code
 		// simpler to assume that it won't be seeing nil pointers.
-		return clrs.appendNull(b), nil
+		return e.clrs.appendNull(b), nil
 	}
 
 	t := reflect.TypeOf(x)
@@ -136,7 +149,7 @@ func Append(b []byte, x interface{}, flags AppendFlags, clrs *Colors, indentr *I
 		c = constructCachedCodec(t, cache)
 	}
 
-	b, err := c.encode(encoder{flags: flags, clrs: clrs, indentr: indentr}, b, p)
+	b, err := c.encode(e, b, p)
 	runtime.KeepAlive(x)
 	return b, err
 }
-- 
2.43.0


From 75c4d810627edb1c9c8c3392a0ea5456b6df00a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 11/35] fix: accept the white space around a RawMessage and
 refuse what follows it

---
 encode.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index e801099..78ce0e5 100644
--- a/encode.go
+++ b/encode.go
@@ -807,15 +807,21 @@ func (e encoder) encodeRawMessage(b []byte, p unsafe.Pointer) ([]byte, error) {
 
 	s := []byte(v)
 	if !trusted {
+		var r []byte
 		var err error
-		s, _, err = parseValue(v)
+		s, r, err = parseValue(skipSpaces(s))
+		if r = skipSpaces(r); err == nil && len(r) != 0 {
+			err = syntaxError(r, "invalid character '%c' after top-level value", r[0])
+		}
 		if err != nil {
 			return b, &UnsupportedValueError{Value: reflect.ValueOf(v), Str: err.Error()}
 		}
 	}
 
+	depth := e.indentr.save()
 	b, err := e.appendRawMessageTokens(b, s)
 	if err != nil && trusted {
+		e.indentr.restore(depth)
 		// The message was trusted but is not well-formed JSON. Per the
 		// TrustRawMessage contract, emit the bytes verbatim without validation
 		// or colorization.
@@ -922,6 +928,9 @@ func (e encoder) appendRawMessageTokens(b, s []byte) ([]byte, error) {
 	if tok.Err != nil {
 		return b[:start], tok.Err
 	}
+	if len(stack) != 0 {
+		return b[:start], unexpectedEOF(nil)
+	}
 
 	return b, nil
 }
@@ -1152,6 +1161,21 @@ func (in *Indenter) pop() {
 	}
 }
 
+// save returns the indentation level, for restore to return to it.
+func (in *Indenter) save() int {
+	if in == nil {
+		return 0
+	}
+	return in.depth
+}
+
+// restore returns to the indentation level depth.
+func (in *Indenter) restore(depth int) {
+	if in != nil {
+		in.depth = depth
+	}
+}
+
 // appendByte appends a to b if the Indenter is non-nil and enabled.
 // Otherwise b is returned unmodified.
 func (in *Indenter) appendByte(b []byte, a byte) []byte {
-- 
2.43.0


From f123e48e3c7ef8a2ea473f920ea1761725f40729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 12/35] fix: report what goes wrong in a marshaler, or with its
 output, as a MarshalerError

---
 encode.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/encode.go b/encode.go
index 78ce0e5..2865f51 100644
--- a/encode.go
+++ b/encode.go
@@ -1001,8 +1001,6 @@ func (e encoder) appendRawMessageScalar(b []byte, v RawValue, isKey bool) []byte
 	return append(b, ansiReset...)
 }
 
-// encodeJSONMarshaler suffers from the same defect as encodeRawMessage; it
-// can result in keys being reordered.
 func (e encoder) encodeJSONMarshaler(b []byte, p unsafe.Pointer, t reflect.Type, pointer bool) ([]byte, error) {
 	v := reflect.NewAt(t, p)
 
@@ -1020,11 +1018,17 @@ func (e encoder) encodeJSONMarshaler(b []byte, p unsafe.Pointer, t reflect.Type,
 	m, _ := v.Interface().(Marshaler)
 	j, err := m.MarshalJSON()
 	if err != nil {
-		return b, err
+		return b, &MarshalerError{Type: t, Err: err}
+	}
+	if j == nil {
+		j = []byte{} // not a value, unlike a nil RawMessage
 	}
 
 	// We effectively delegate to the encodeRawMessage method.
-	return e.encodeAny(b, RawMessage(j))
+	if b, err = e.encodeRawMessage(b, unsafe.Pointer(&j)); err != nil {
+		return b, &MarshalerError{Type: t, Err: err}
+	}
+	return b, nil
 }
 
 func (e encoder) encodeTextMarshaler(b []byte, p unsafe.Pointer, t reflect.Type, pointer bool) ([]byte, error) {
@@ -1044,7 +1048,7 @@ func (e encoder) encodeTextMarshaler(b []byte, p unsafe.Pointer, t reflect.Type,
 	tm, _ := v.Interface().(encoding.TextMarshaler)
 	s, err := tm.MarshalText()
 	if err != nil {
-		return b, err
+		return b, &MarshalerError{Type: t, Err: err}
 	}
 
 	if e.clrs == nil {
-- 
2.43.0


From a22c00a551bb6c2c0adb3e54d31ace884a1cac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 13/35] fix: refuse to encode a value that contains itself

---
 codec.go  | 41 +++++++++++++++++++++++++++++++++++++++++
 encode.go | 37 +++++++++++++++++++++++++++++++------
 2 files changed, 72 insertions(+), 6 deletions(-)

diff --git a/codec.go b/codec.go
index 39a48b2..17fa609 100644
--- a/codec.go
+++ b/codec.go
@@ -24,7 +24,48 @@ type encoder struct {
 	flags   AppendFlags
 	clrs    *Colors
 	indentr *Indenter
+
+	// Used for detecting values that contain themselves: the number of
+	// references that the value was reached through, and those among them that
+	// lie deeper than startDetectCyclesAfter.
+	level   int
+	visited map[reference]struct{}
+}
+
+// reference identifies a pointer, slice or map of type typ.
+type reference struct {
+	typ reflect.Type
+	ptr unsafe.Pointer
+	len int
 }
+
+// startDetectCyclesAfter is the level at which the search for cycles starts,
+// which spares all the values that are not nested this deeply from its cost.
+const startDetectCyclesAfter = 1000
+
+// enter records in e that the value ref is about to be encoded, to which e.leave
+// puts an end. It fails if ref is already being encoded.
+func (e *encoder) enter(ref reference) error {
+	if e.level++; e.level <= startDetectCyclesAfter {
+		return nil
+	}
+	if _, found := e.visited[ref]; found {
+		return &UnsupportedValueError{Str: fmt.Sprintf("encountered a cycle via %s", ref.typ)}
+	}
+	if e.visited == nil {
+		e.visited = make(map[reference]struct{})
+	}
+	e.visited[ref] = struct{}{}
+	return nil
+}
+
+func (e *encoder) leave(ref reference) {
+	if e.level > startDetectCyclesAfter {
+		delete(e.visited, ref)
+	}
+	e.level--
+}
+
 type decoder struct{ flags ParseFlags }
 
 type (
diff --git a/encode.go b/encode.go
index 2865f51..c44b221 100644
--- a/encode.go
+++ b/encode.go
@@ -413,7 +413,13 @@ func (e encoder) encodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 		return e.clrs.appendNull(b), nil
 	}
 
-	return e.encodeArray(b, s.data, s.len, size, t, encode)
+	ref := reference{typ: t, ptr: s.data, len: s.len}
+	if err := e.enter(ref); err != nil {
+		return b, err
+	}
+	b, err := e.encodeArray(b, s.data, s.len, size, t, encode)
+	e.leave(ref)
+	return b, err
 }
 
 func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, keyName keyNameFunc, encodeValue encodeFunc) ([]byte, error) {
@@ -423,7 +429,13 @@ func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, keyName k
 	}
 
 	start := len(b)
-	var err error
+
+	ref := reference{typ: t, ptr: *(*unsafe.Pointer)(p)}
+	err := e.enter(ref)
+	if err != nil {
+		return b, err
+	}
+	defer e.leave(ref)
 
 	type mapElement struct {
 		name string
@@ -499,6 +511,12 @@ func (e encoder) encodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 		return e.clrs.appendNull(b), nil
 	}
 
+	ref := reference{typ: mapStringInterfaceType, ptr: *(*unsafe.Pointer)(p)}
+	if err := e.enter(ref); err != nil {
+		return b, err
+	}
+	defer e.leave(ref)
+
 	if (e.flags & SortMapKeys) == 0 {
 		// Optimized code path when the program does not need the map keys to be
 		// sorted.
@@ -763,11 +781,18 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 	return b, nil
 }
 
-func (e encoder) encodePointer(b []byte, p unsafe.Pointer, _ reflect.Type, encode encodeFunc) ([]byte, error) {
-	if p = *(*unsafe.Pointer)(p); p != nil {
-		return encode(e, b, p)
+func (e encoder) encodePointer(b []byte, p unsafe.Pointer, t reflect.Type, encode encodeFunc) ([]byte, error) {
+	if p = *(*unsafe.Pointer)(p); p == nil {
+		return e.encodeNull(b, nil)
 	}
-	return e.encodeNull(b, nil)
+
+	ref := reference{typ: t, ptr: p}
+	if err := e.enter(ref); err != nil {
+		return b, err
+	}
+	b, err := encode(e, b, p)
+	e.leave(ref)
+	return b, err
 }
 
 func (e encoder) encodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
-- 
2.43.0


From fc15176342e30b4e8336c2ffc45d6b21f2a77d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 14/35] fix: decode arrays like encoding/json (commas between
 excess elements, missing elements zeroed)

---
 decode.go | 50 +++++++++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/decode.go b/decode.go
index 05ce62a..35f8a60 100644
--- a/decode.go
+++ b/decode.go
@@ -513,21 +513,35 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 	b = b[1:]
 
 	var err error
-	for i := 0; i < n; i++ {
+	for i := 0; ; i++ {
 		b = skipSpaces(b)
 
+		if len(b) != 0 && b[0] == ']' {
+			// The encoding/json package sets the elements that are missing from
+			// the input to their zero value.
+			for ; i < n; i++ {
+				reflect.NewAt(t.Elem(), unsafe.Pointer(uintptr(p)+(uintptr(i)*size))).Elem().SetZero()
+			}
+			return b[1:], nil
+		}
+
 		if i != 0 {
 			if len(b) == 0 {
 				return b, syntaxError(b, "unexpected EOF after array element")
 			}
-			switch b[0] {
-			case ',':
-				b = skipSpaces(b[1:])
-			case ']':
-				return b[1:], nil
-			default:
+			if b[0] != ',' {
 				return b, syntaxError(b, "expected ',' after array element but found '%c'", b[0])
 			}
+			b = skipSpaces(b[1:])
+		}
+
+		if i >= n {
+			// The encoding/json package ignores extra elements found when
+			// decoding into array types (which have a fixed size).
+			if _, b, err = parseValue(b); err != nil {
+				return b, err
+			}
+			continue
 		}
 
 		b, err = decode(d, b, unsafe.Pointer(uintptr(p)+(uintptr(i)*size)))
@@ -540,28 +554,6 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 			return b, err
 		}
 	}
-
-	// The encoding/json package ignores extra elements found when decoding into
-	// array types (which have a fixed size).
-	for {
-		b = skipSpaces(b)
-
-		if len(b) == 0 {
-			return b, syntaxError(b, "missing closing ']' in array value")
-		}
-
-		switch b[0] {
-		case ',':
-			b = skipSpaces(b[1:])
-		case ']':
-			return b[1:], nil
-		}
-
-		_, b, err = parseValue(b)
-		if err != nil {
-			return b, err
-		}
-	}
 }
 
 // This is a placeholder used to construct non-nil empty slices.
-- 
2.43.0


From 0327a88fc95e44cc33fae9d2aa46921acf7cbb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:52 +0000
Subject: [PATCH 15/35] fix: decode a Number from a string

---
 decode.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/decode.go b/decode.go
index 35f8a60..4b2c03f 100644
--- a/decode.go
+++ b/decode.go
@@ -262,6 +262,9 @@ func (d decoder) decodeNumber(b []byte, p unsafe.Pointer) ([]byte, error) {
 
 	v, r, err := parseNumber(b)
 	if err != nil {
+		if len(b) != 0 && b[0] == '"' {
+			return d.decodeNumberFromString(b, p)
+		}
 		return inputError(b, numberType)
 	}
 
@@ -274,6 +277,27 @@ func (d decoder) decodeNumber(b []byte, p unsafe.Pointer) ([]byte, error) {
 	return r, nil
 }
 
+// decodeNumberFromString decodes a number out of a json string, which is the
+// kind of value that Number has in Go.
+func (d decoder) decodeNumberFromString(b []byte, p unsafe.Pointer) ([]byte, error) {
+	s, r, isNew, err := parseStringUnquote(b, nil)
+	if err != nil {
+		return r, err
+	}
+
+	if _, rest, err := parseNumber(s); err != nil || len(rest) != 0 {
+		return r, fmt.Errorf("json: invalid number literal, trying to unmarshal %q into Number", s)
+	}
+
+	if isNew || (d.flags&DontCopyNumber) != 0 {
+		*(*Number)(p) = *(*Number)(unsafe.Pointer(&s))
+	} else {
+		*(*Number)(p) = Number(s)
+	}
+
+	return r, nil
+}
+
 func (d decoder) decodeString(b []byte, p unsafe.Pointer) ([]byte, error) {
 	if hasNullPrefix(b) {
 		return b[4:], nil
-- 
2.43.0


From 731b08596db8c42bfbe3454cefdf056539059f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:56 +0000
Subject: [PATCH 16/35] fix: pass null to the UnmarshalJSON method of values
 that are not pointers

---
 decode.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/decode.go b/decode.go
index 4b2c03f..890f509 100644
--- a/decode.go
+++ b/decode.go
@@ -1159,10 +1159,6 @@ func (d decoder) decodeJSONUnmarshaler(b []byte, p unsafe.Pointer, t reflect.Typ
 		return b, err
 	}
 
-	if len(v) != 0 && v[0] == 'n' { // null
-		return b, nil
-	}
-
 	u := reflect.NewAt(t, p)
 	if !pointer {
 		u = u.Elem()
-- 
2.43.0


From 24b27713900b6633bc9ff48b2f84a25dcf886551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 17/35] fix: decode null into slices and maps that have an
 UnmarshalText method

---
 decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/decode.go b/decode.go
index 890f509..d53d09a 100644
--- a/decode.go
+++ b/decode.go
@@ -1184,8 +1184,11 @@ func (d decoder) decodeTextUnmarshaler(b []byte, p unsafe.Pointer, t reflect.Typ
 
 	switch v[0] {
 	case 'n':
-		_, _, err := parseNull(v)
-		return b, err
+		switch t.Kind() {
+		case reflect.Map, reflect.Slice, reflect.Interface:
+			reflect.NewAt(t, p).Elem().SetZero()
+		}
+		return b, nil
 	case '"':
 		s, _, _, err := parseStringUnquote(v, nil)
 		if err != nil {
-- 
2.43.0


From f71042a22a6d4c27e3f2791a6e3a192fea5770d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:04 +0000
Subject: [PATCH 18/35] fix: decode a time like encoding/json

---
 decode.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/decode.go b/decode.go
index d53d09a..efef58b 100644
--- a/decode.go
+++ b/decode.go
@@ -506,24 +506,13 @@ func (d decoder) decodeTime(b []byte, p unsafe.Pointer) ([]byte, error) {
 		return b[4:], nil
 	}
 
-	if len(b) < 2 || b[0] != '"' {
-		return inputError(b, timeType)
-	}
-
-	i := bytes.IndexByte(b[1:], '"') + 1
-	if i <= 0 {
-		return inputError(b, timeType)
-	}
-
-	s := b[1:i] // trim quotes
-
-	v, err := time.Parse(time.RFC3339Nano, *(*string)(unsafe.Pointer(&s)))
+	s, r, err := parseValue(b)
 	if err != nil {
-		return inputError(b, timeType)
+		return r, err
 	}
 
-	*(*time.Time)(p) = v
-	return b[i+1:], nil
+	// It is stricter than time.Parse, see the documentation of time.Time.
+	return r, (*time.Time)(p).UnmarshalJSON(s)
 }
 
 func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t reflect.Type, decode decodeFunc) ([]byte, error) {
-- 
2.43.0


From 33e9c40f2289d6486e970c062603662fe59d64be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:11 +0000
Subject: [PATCH 19/35] fix: replace the nil pointer found in an interface when
 decoding

---
 decode.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/decode.go b/decode.go
index efef58b..c8f847c 100644
--- a/decode.go
+++ b/decode.go
@@ -1026,21 +1026,26 @@ func (d decoder) decodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 	*(*interface{})(p) = nil
 
 	if t := reflect.TypeOf(val); t != nil && t.Kind() == reflect.Pointer {
-		if v := reflect.ValueOf(val); v.IsNil() || t.Elem().Kind() != reflect.Pointer {
-			// If the destination is nil the only value that is OK to decode is
-			// `null`, and the encoding/json package always nils the destination
-			// interface value in this case.
+		v := reflect.ValueOf(val)
+
+		if v.IsNil() || t.Elem().Kind() != reflect.Pointer {
+			// The encoding/json package always nils the destination interface
+			// value in this case.
 			if hasNullPrefix(b) {
 				*(*interface{})(p) = nil
 				return b[4:], nil
 			}
 		}
 
-		parsedBytes, err := Parse(b, val, d.flags)
-		if err == nil {
-			*(*interface{})(p) = val
+		// There is nothing to decode into behind a nil pointer, it is replaced
+		// like any other value.
+		if !v.IsNil() {
+			parsedBytes, err := Parse(b, val, d.flags)
+			if err == nil {
+				*(*interface{})(p) = val
+			}
+			return parsedBytes, err
 		}
-		return parsedBytes, err
 	}
 
 	v, b, err := parseValue(b)
-- 
2.43.0


From d7e7de9c5d63f2ef3b8e61371a6a6c8dde21a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:15 +0000
Subject: [PATCH 20/35] fix: accept null for the types that cannot be decoded

---
 decode.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index c8f847c..15e96fd 100644
--- a/decode.go
+++ b/decode.go
@@ -1122,11 +1122,19 @@ func (d decoder) decodeMaybeEmptyInterface(b []byte, p unsafe.Pointer, t reflect
 	return d.decodeUnmarshalTypeError(b, p, t)
 }
 
-func (d decoder) decodeUnmarshalTypeError(b []byte, _ unsafe.Pointer, t reflect.Type) ([]byte, error) {
+func (d decoder) decodeUnmarshalTypeError(b []byte, p unsafe.Pointer, t reflect.Type) ([]byte, error) {
 	v, b, err := parseValue(b)
 	if err != nil {
 		return b, err
 	}
+	if v[0] == 'n' {
+		// Like in the encoding/json package, null has no effect on the values
+		// that cannot be decoded, other than to clear maps.
+		if t.Kind() == reflect.Map {
+			reflect.NewAt(t, p).Elem().SetZero()
+		}
+		return b, nil
+	}
 	return b, &UnmarshalTypeError{
 		Value: string(v),
 		Type:  t,
-- 
2.43.0


From ad7f7fc6145bdad069614682aff978dfd8abe67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:12 +0000
Subject: [PATCH 21/35] fix: let go of the previous elements of a slice decoded
 from an empty array

---
 decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decode.go b/decode.go
index 15e96fd..7d76e2b 100644
--- a/decode.go
+++ b/decode.go
@@ -603,8 +603,10 @@ func (d decoder) decodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 		b = skipSpaces(b)
 
 		if len(b) != 0 && b[0] == ']' {
-			if s.data == nil {
-				s.data = unsafe.Pointer(&empty)
+			if s.len == 0 {
+				// Like in the encoding/json package, an empty array lets go of
+				// the previous elements.
+				*s = slice{data: unsafe.Pointer(&empty)}
 			}
 			return b[1:], nil
 		}
-- 
2.43.0


From 2cb42bbd01ad8e7ff0bcba1c457b14faf33fb1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 22/35] fix: refuse white space after a value decoded from a
 string

---
 decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index 7d76e2b..0756590 100644
--- a/decode.go
+++ b/decode.go
@@ -334,7 +334,7 @@ func (d decoder) decodeFromString(b []byte, p unsafe.Pointer, decode decodeFunc)
 		return b, err
 	}
 
-	if v = skipSpaces(v); len(v) != 0 {
+	if len(v) != 0 {
 		return b, syntaxError(v, "unexpected trailing tokens after string value")
 	}
 
-- 
2.43.0


From 2b7136f6c8c3bd9f84ad850a7dc15fc68080c255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:15 +0000
Subject: [PATCH 23/35] fix: tokenize values after a closing brace, stray
 commas and unbalanced delimiters

---
 token.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/token.go b/token.go
index df5f11e..a9c0438 100644
--- a/token.go
+++ b/token.go
@@ -178,21 +178,28 @@ skipLoop:
 		case '[':
 			t.push(inArray)
 		case '}':
+			t.isKey = false
 			err = t.pop(inObject)
 			t.Depth--
 			t.Index = t.index()
 		case ']':
+			t.isKey = false
 			err = t.pop(inArray)
 			t.Depth--
 			t.Index = t.index()
 		case ':':
 			t.isKey = false
 		case ',':
+			if len(t.stack) == 0 {
+				err = syntaxError(t.json, "found unexpected character while tokenizing json input")
+				break
+			}
 			if t.is(inObject) {
 				t.isKey = true
 			}
 			t.stack[len(t.stack)-1].len++
 		}
+		t.Err = err
 	}
 
 	return (d != 0 || len(v) != 0) && err == nil
-- 
2.43.0


From 19db3c163ce8531463a78db333d6320f943d8542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:17 +0000
Subject: [PATCH 24/35] fix: never colorize the output file of jc

---
 cmd/jc/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/jc/main.go b/cmd/jc/main.go
index 4b6061e..debfca8 100644
--- a/cmd/jc/main.go
+++ b/cmd/jc/main.go
@@ -121,7 +121,8 @@ func doMain() error {
 
 	var enc *json.Encoder
 
-	if flagColorize != nil && *flagColorize && json.IsColorTerminal(out) {
+	// File output is never colorized, not even if FORCE_COLOR is set.
+	if flagColorize != nil && *flagColorize && out == os.Stdout && json.IsColorTerminal(out) {
 		outFile, _ := out.(*os.File)
 		out = colorable.NewColorable(outFile) // colorable is needed for Windows
 		enc = json.NewEncoder(out)
-- 
2.43.0


From 019226ee74109fa00b14a2dcefe2634e2f6a4747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 25/35] fix: refuse documents that are nested too deeply
 instead of overflowing the stack

---
 codec.go  |  5 ++++-
 decode.go | 18 ++++++++++++++++++
 parse.go  | 29 +++++++++++++++++++++--------
 3 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/codec.go b/codec.go
index 17fa609..0465658 100644
--- a/codec.go
+++ b/codec.go
@@ -66,7 +66,10 @@ func (e *encoder) leave(ref reference) {
 	e.level--
 }
 
-type decoder struct{ flags ParseFlags }
+type decoder struct {
+	flags ParseFlags
+	depth int // number of objects and arrays being decoded
+}
 
 type (
 	encodeFunc func(encoder, []byte, unsafe.Pointer) ([]byte, error)
diff --git a/decode.go b/decode.go
index 0756590..1f9145c 100644
--- a/decode.go
+++ b/decode.go
@@ -523,6 +523,9 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 	if len(b) < 2 || b[0] != '[' {
 		return inputError(b, t)
 	}
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 
 	var err error
@@ -593,6 +596,9 @@ func (d decoder) decodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 	}
 
 	input := b
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 
 	s := (*slice)(p)
@@ -677,6 +683,9 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 	}
 
 	var err error
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 	for {
 		k.Set(kz)
@@ -788,6 +797,9 @@ func (d decoder) decodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 	}
 
 	input := b
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 	for i := 0; ; i++ {
 		var key string
@@ -840,6 +852,9 @@ func (d decoder) decodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 	}
 
 	input := b
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 	for i := 0; ; i++ {
 		var err error
@@ -928,6 +943,9 @@ func (d decoder) decodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 	var key []byte
 	input := b
 
+	if d.depth++; d.depth > maxNestingDepth {
+		return b, syntaxError(b, "exceeded max depth")
+	}
 	b = b[1:]
 	for {
 		b = skipSpaces(b)
diff --git a/parse.go b/parse.go
index 9118830..d8c3a02 100644
--- a/parse.go
+++ b/parse.go
@@ -529,7 +529,7 @@ func appendCoerceInvalidUTF8(b, s []byte) []byte {
 	return b
 }
 
-func parseObject(b []byte) ([]byte, []byte, error) {
+func parseObject(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) < 2 {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
@@ -586,7 +586,7 @@ func parseObject(b []byte) ([]byte, []byte, error) {
 		}
 		b = skipSpaces(b[1:])
 
-		_, b, err = parseValue(b)
+		_, b, err = parseNestedValue(b, depth+1)
 		if err != nil {
 			return nil, b, err
 		}
@@ -595,7 +595,7 @@ func parseObject(b []byte) ([]byte, []byte, error) {
 	}
 }
 
-func parseArray(b []byte) ([]byte, []byte, error) {
+func parseArray(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) < 2 {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
@@ -638,7 +638,7 @@ func parseArray(b []byte) ([]byte, []byte, error) {
 			}
 		}
 
-		_, b, err = parseValue(b)
+		_, b, err = parseNestedValue(b, depth+1)
 		if err != nil {
 			return nil, b, err
 		}
@@ -647,13 +647,26 @@ func parseArray(b []byte) ([]byte, []byte, error) {
 	}
 }
 
+// maxNestingDepth is the number of objects and arrays that may be nested, which
+// is the limit of the encoding/json package. It bounds the size of the stack.
+const maxNestingDepth = 10000
+
 func parseValue(b []byte) ([]byte, []byte, error) {
+	return parseNestedValue(b, 0)
+}
+
+// parseNestedValue parses a value found inside of depth objects and arrays.
+func parseNestedValue(b []byte, depth int) ([]byte, []byte, error) {
 	if len(b) != 0 {
 		switch b[0] {
-		case '{':
-			return parseObject(b)
-		case '[':
-			return parseArray(b)
+		case '{', '[':
+			if depth >= maxNestingDepth {
+				return nil, b, syntaxError(b, "exceeded max depth")
+			}
+			if b[0] == '{' {
+				return parseObject(b, depth)
+			}
+			return parseArray(b, depth)
 		case '"':
 			return parseString(b)
 		case 'n':
-- 
2.43.0


From d0a8e7b31c8b67d7f23f26c7175a69855f093bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:49 +0000
Subject: [PATCH 26/35] fix: report syntax errors first and consume the values
 that are refused

---
 json.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/json.go b/json.go
index de382da..7a30d44 100644
--- a/json.go
+++ b/json.go
@@ -241,6 +241,15 @@ func Parse(b []byte, x interface{}, flags ParseFlags) ([]byte, error) {
 	}
 
 	r, err := c.decode(decoder{flags: flags}, skipSpaces(b), p)
+	if err != nil {
+		// A syntax error has precedence over the other ones, which don't
+		// prevent the value from being consumed.
+		_, rest, err2 := parseValue(skipSpaces(b))
+		if err2 != nil {
+			return rest, err2
+		}
+		r = rest
+	}
 	return skipSpaces(r), err
 }
 
-- 
2.43.0


From 8aadf653d39ee7a7111399b76a8d5d456bb2e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:53 +0000
Subject: [PATCH 27/35] fix: decode numbers and escape sequences that are split
 between reads

---
 json.go  |  4 ++++
 parse.go | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 7a30d44..ec547cf 100644
--- a/json.go
+++ b/json.go
@@ -304,6 +304,10 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 	for {
 		if len(dec.remain) != 0 {
 			v, r, err = parseValue(dec.remain)
+			if err == nil && len(r) == 0 && !errors.Is(dec.err, io.EOF) && RawValue(v).Number() {
+				// The number may continue in what is yet to be read.
+				err = unexpectedEOF(r)
+			}
 			if err == nil {
 				dec.remain, n = skipSpacesN(r)
 				dec.inputOffset += int64(len(v) + n)
diff --git a/parse.go b/parse.go
index d8c3a02..adf11c1 100644
--- a/parse.go
+++ b/parse.go
@@ -30,7 +30,7 @@ func skipSpacesN(b []byte) ([]byte, int) {
 			return b[i:], i
 		}
 	}
-	return nil, 0
+	return nil, len(b)
 }
 
 // parseInt parses a decimanl representation of an int64 from b.
@@ -349,7 +349,7 @@ func parseNumber(b []byte) (v, r []byte, err error) {
 		for i < len(b) {
 			if c := b[i]; c < '0' || c > '9' {
 				if i == exponentStart {
-					err = syntaxError(b, "expected digit but found '%c'", c)
+					r, err = b[i:], syntaxError(b, "expected digit but found '%c'", c)
 					return v, r, err
 				}
 				break
@@ -379,6 +379,19 @@ func parseUnicode(b []byte) (rune, int, error) {
 	return rune(u), 4, nil //nolint:gosec // u is at most 0xFFFF (4 hex digits), always a valid rune
 }
 
+func isHex(b []byte) bool {
+	for _, c := range b {
+		switch {
+		case c >= '0' && c <= '9':
+		case c >= 'A' && c <= 'F':
+		case c >= 'a' && c <= 'f':
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 func parseStringFast(b []byte) ([]byte, []byte, bool, error) {
 	if len(b) < 2 {
 		return nil, b[len(b):], false, unexpectedEOF(b)
@@ -404,6 +417,9 @@ func parseStringFast(b []byte) ([]byte, []byte, bool, error) {
 				case 'u':
 					_, n, err := parseUnicode(b[i+1:])
 					if err != nil {
+						if isHex(b[i+1:]) { // the input ends before the sequence does
+							return nil, b[len(b):], false, unexpectedEOF(b)
+						}
 						return nil, b, false, err
 					}
 					i += n
-- 
2.43.0


From 676431adae1729975c4dbc831ec9cefcaabd70eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:57 +0000
Subject: [PATCH 28/35] fix: decode values as soon as they are received and
 keep the errors of the reader

---
 json.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/json.go b/json.go
index ec547cf..4d4b5f9 100644
--- a/json.go
+++ b/json.go
@@ -341,15 +341,10 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 			dec.buffer = buf
 		}
 
-		n, err = io.ReadFull(dec.reader, dec.buffer[len(dec.buffer):cap(dec.buffer)])
-		if n > 0 {
-			dec.buffer = dec.buffer[:len(dec.buffer)+n]
-			if err != nil {
-				err = nil
-			}
-		} else if errors.Is(err, io.ErrUnexpectedEOF) {
-			err = io.EOF
-		}
+		// The buffer is not filled before looking for a value, which may have
+		// been received entirely while the rest is yet to be sent.
+		n, err = dec.reader.Read(dec.buffer[len(dec.buffer):cap(dec.buffer)])
+		dec.buffer = dec.buffer[:len(dec.buffer)+n]
 		dec.remain, n = skipSpacesN(dec.buffer)
 		dec.inputOffset += int64(n)
 		dec.err = err
-- 
2.43.0


From 661d66880b10bc2b6047b4c0eb95f4f27694c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:54 +0000
Subject: [PATCH 29/35] fix: report what is wrong with a string or literal also
 where the input ends

---
 parse.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/parse.go b/parse.go
index adf11c1..1551796 100644
--- a/parse.go
+++ b/parse.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"math"
 	"reflect"
+	"strings"
 	"unicode"
 	"unicode/utf16"
 	"unicode/utf8"
@@ -242,7 +243,7 @@ func parseNull(b []byte) ([]byte, []byte, error) {
 	if hasNullPrefix(b) {
 		return b[:4], b[4:], nil
 	}
-	if len(b) < 4 {
+	if strings.HasPrefix("null", string(b)) {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
 	return nil, b, syntaxError(b, "expected 'null' but found invalid token")
@@ -252,7 +253,7 @@ func parseTrue(b []byte) ([]byte, []byte, error) {
 	if hasTruePrefix(b) {
 		return b[:4], b[4:], nil
 	}
-	if len(b) < 4 {
+	if strings.HasPrefix("true", string(b)) {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
 	return nil, b, syntaxError(b, "expected 'true' but found invalid token")
@@ -262,7 +263,7 @@ func parseFalse(b []byte) ([]byte, []byte, error) {
 	if hasFalsePrefix(b) {
 		return b[:5], b[5:], nil
 	}
-	if len(b) < 5 {
+	if strings.HasPrefix("false", string(b)) {
 		return nil, b[len(b):], unexpectedEOF(b)
 	}
 	return nil, b, syntaxError(b, "expected 'false' but found invalid token")
@@ -393,18 +394,15 @@ func isHex(b []byte) bool {
 }
 
 func parseStringFast(b []byte) ([]byte, []byte, bool, error) {
+	if len(b) != 0 && b[0] != '"' {
+		return nil, b, false, syntaxError(b, "expected '\"' at the beginning of a string value")
+	}
 	if len(b) < 2 {
 		return nil, b[len(b):], false, unexpectedEOF(b)
 	}
-	if b[0] != '"' {
-		return nil, b, false, syntaxError(b, "expected '\"' at the beginning of a string value")
-	}
 
 	n := bytes.IndexByte(b[1:], '"') + 2
-	if n <= 1 {
-		return nil, b[len(b):], false, syntaxError(b, "missing '\"' at the end of a string value")
-	}
-	if bytes.IndexByte(b[1:n], '\\') < 0 && asciiValidPrint(b[1:n]) {
+	if n > 1 && bytes.IndexByte(b[1:n], '\\') < 0 && asciiValidPrint(b[1:n]) {
 		return b[:n], b[n:], false, nil
 	}
 
-- 
2.43.0


From e8fef9dceadfdf4fccdb9ef3f88245cedd19a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:43 +0000
Subject: [PATCH 30/35] fix: decode into an interface that points to itself
 like encoding/json

---
 decode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decode.go b/decode.go
index 1f9145c..e6e3505 100644
--- a/decode.go
+++ b/decode.go
@@ -1058,8 +1058,9 @@ func (d decoder) decodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 		}
 
 		// There is nothing to decode into behind a nil pointer, it is replaced
-		// like any other value.
-		if !v.IsNil() {
+		// like any other value, and so is a pointer to the interface itself.
+		itself := t.Elem().Kind() == reflect.Interface && v.Pointer() == uintptr(p)
+		if !v.IsNil() && !itself {
 			parsedBytes, err := Parse(b, val, d.flags)
 			if err == nil {
 				*(*interface{})(p) = val
-- 
2.43.0


From d457c3b232650ed8a1ae5497fa0d5e156532c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:21 +0000
Subject: [PATCH 31/35] fix: do not take the reader's errors which wrap io.EOF
 for the end of the input

---
 json.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 4d4b5f9..d811c85 100644
--- a/json.go
+++ b/json.go
@@ -304,7 +304,7 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 	for {
 		if len(dec.remain) != 0 {
 			v, r, err = parseValue(dec.remain)
-			if err == nil && len(r) == 0 && !errors.Is(dec.err, io.EOF) && RawValue(v).Number() {
+			if err == nil && len(r) == 0 && dec.err != io.EOF && RawValue(v).Number() { //nolint:errorlint // other errors are no end
 				// The number may continue in what is yet to be read.
 				err = unexpectedEOF(r)
 			}
@@ -322,7 +322,7 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 		}
 
 		if err = dec.err; err != nil {
-			if len(dec.remain) != 0 && errors.Is(err, io.EOF) {
+			if len(dec.remain) != 0 && err == io.EOF { //nolint:errorlint // other errors are the reader's
 				err = io.ErrUnexpectedEOF
 			}
 			return v, err
-- 
2.43.0


From 36eb64578974ef4abfeb2c73551624e79c06d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:12 +0000
Subject: [PATCH 32/35] fix: name time.Duration in errors of durations

decodeDuration named int32 as the Go type which could not take the value.
---
 decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decode.go b/decode.go
index e6e3505..3586af1 100644
--- a/decode.go
+++ b/decode.go
@@ -474,7 +474,7 @@ func (d decoder) decodeDuration(b []byte, p unsafe.Pointer) ([]byte, error) {
 	if len(b) > 0 && b[0] != '"' {
 		v, r, err := parseInt(b, durationType)
 		if err != nil {
-			return inputError(b, int32Type)
+			return inputError(b, durationType)
 		}
 
 		*(*time.Duration)(p) = time.Duration(v)
-- 
2.43.0


From c010fa578a9cf3f41c85f060136f5c190dc0d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:52 +0000
Subject: [PATCH 33/35] fix: do not make room for 64 members in every decoded
 map

An empty object took 5 KB, so that a document of 600 KB could take 1 GB.
---
 decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decode.go b/decode.go
index 3586af1..9b17583 100644
--- a/decode.go
+++ b/decode.go
@@ -793,7 +793,7 @@ func (d decoder) decodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 
 	m := *(*map[string]interface{})(p)
 	if m == nil {
-		m = make(map[string]interface{}, 64)
+		m = make(map[string]interface{})
 	}
 
 	input := b
@@ -848,7 +848,7 @@ func (d decoder) decodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 
 	m := *(*map[string]RawMessage)(p)
 	if m == nil {
-		m = make(map[string]RawMessage, 64)
+		m = make(map[string]RawMessage)
 	}
 
 	input := b
-- 
2.43.0


From fb5a06d56cc3bb09511132b922e97bb24ba8da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:39 +0000
Subject: [PATCH 34/35] fix: look for the end of long values that are received
 in pieces in linear time

The decoder parsed what it had of a value after every read.
---
 json.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index d811c85..7e19755 100644
--- a/json.go
+++ b/json.go
@@ -270,6 +270,11 @@ type Decoder struct {
 	inputOffset int64
 	err         error
 	flags       ParseFlags
+
+	// While a value is being received: the length of remain when it was last
+	// parsed, and what tells where the value ends.
+	parsed int
+	end    valueEnd
 }
 
 // NewDecoder is documented at https://golang.org/pkg/encoding/json/#NewDecoder
@@ -302,12 +307,18 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 	var r []byte
 
 	for {
-		if len(dec.remain) != 0 {
+		// A long value isn't parsed anew after each read, which would take a
+		// time quadratic to its length.
+		if len(dec.remain) != 0 && (len(dec.remain) < minReadSize || len(dec.remain) >= 2*dec.parsed || dec.err != nil || dec.end.find(dec.remain)) {
+			dec.parsed = len(dec.remain)
 			v, r, err = parseValue(dec.remain)
 			if err == nil && len(r) == 0 && dec.err != io.EOF && RawValue(v).Number() { //nolint:errorlint // other errors are no end
 				// The number may continue in what is yet to be read.
 				err = unexpectedEOF(r)
 			}
+			if err == nil || len(r) != 0 {
+				dec.parsed, dec.end = 0, valueEnd{}
+			}
 			if err == nil {
 				dec.remain, n = skipSpacesN(r)
 				dec.inputOffset += int64(len(v) + n)
@@ -351,6 +362,49 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 	}
 }
 
+// valueEnd looks for the end of a JSON value of which more and more is received,
+// looking at each byte once. It doesn't tell whether the value is valid.
+type valueEnd struct {
+	offset  int // bytes that were looked at
+	depth   int // objects and arrays that are open
+	quoted  bool
+	escaped bool
+	found   bool
+}
+
+// find returns true if the value that b starts with may end in b. The first
+// bytes of b must be those it was called with before.
+func (e *valueEnd) find(b []byte) bool {
+	for ; e.offset < len(b) && !e.found; e.offset++ {
+		c := b[e.offset]
+		switch {
+		case e.escaped:
+			e.escaped = false
+		case e.quoted && c == '\\':
+			e.escaped = true
+		case e.quoted && c != '"':
+		case e.depth == 0 && !e.quoted && e.offset > 0:
+			// Only numbers neither end with their first byte nor are quoted.
+			e.found = !isNumberByte(c)
+		case c == '"':
+			e.quoted = !e.quoted
+			e.found = !e.quoted && e.depth == 0
+		case c == '{' || c == '[':
+			e.depth++
+		case c == '}' || c == ']':
+			e.depth--
+			e.found = e.depth <= 0
+		default:
+			e.found = e.depth == 0 && !isNumberByte(c)
+		}
+	}
+	return e.found
+}
+
+func isNumberByte(c byte) bool {
+	return '0' <= c && c <= '9' || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E'
+}
+
 // DisallowUnknownFields is documented at https://golang.org/pkg/encoding/json/#Decoder.DisallowUnknownFields
 func (dec *Decoder) DisallowUnknownFields() { dec.flags |= DisallowUnknownFields }
 
-- 
2.43.0


From 87e2d4bec85f41ea85e40c415dd738975a971dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:13 +0000
Subject: [PATCH 35/35] fix: decode deeply nested documents in linear time

Each level of nesting looked for the end of its value before decoding it into an
interface, and again after an error: a document of 300 KB took seconds.
---
 decode.go | 70 +++++++++++++++++--------------------------------------
 1 file changed, 22 insertions(+), 48 deletions(-)

diff --git a/decode.go b/decode.go
index 9b17583..558a6b6 100644
--- a/decode.go
+++ b/decode.go
@@ -595,7 +595,6 @@ func (d decoder) decodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 		return inputError(b, t)
 	}
 
-	input := b
 	if d.depth++; d.depth > maxNestingDepth {
 		return b, syntaxError(b, "exceeded max depth")
 	}
@@ -641,12 +640,6 @@ func (d decoder) decodeSlice(b []byte, p unsafe.Pointer, size uintptr, t reflect
 
 		b, err = decode(d, b, unsafe.Pointer(uintptr(s.data)+(uintptr(s.len)*size)))
 		if err != nil {
-			_, r, err2 := parseValue(input)
-			if err2 != nil {
-				return r, err2
-			}
-			b = r
-
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
 				e.Struct = t.String() + e.Struct
@@ -676,7 +669,6 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 
 	kptr := (*iface)(unsafe.Pointer(&k)).ptr
 	vptr := (*iface)(unsafe.Pointer(&v)).ptr
-	input := b
 
 	if m.IsNil() {
 		m = reflect.MakeMap(t)
@@ -718,11 +710,7 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 			}
 			// The key is a string which is not suitable for the type of the
 			// map keys.
-			_, r, err2 := parseValue(input)
-			if err2 != nil {
-				return r, err2
-			}
-			return r, err
+			return b, err
 		}
 		b = skipSpaces(b)
 
@@ -735,11 +723,6 @@ func (d decoder) decodeMap(b []byte, p unsafe.Pointer, t, kt, vt reflect.Type, k
 		b = skipSpaces(b[1:])
 
 		if b, err = decodeValue(d, b, vptr); err != nil {
-			_, r, err2 := parseValue(input)
-			if err2 != nil {
-				return r, err2
-			}
-			b = r
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
 				e.Struct = "map[" + kt.String() + "]" + vt.String() + "{" + e.Struct + "}"
@@ -796,7 +779,6 @@ func (d decoder) decodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 		m = make(map[string]interface{})
 	}
 
-	input := b
 	if d.depth++; d.depth > maxNestingDepth {
 		return b, syntaxError(b, "exceeded max depth")
 	}
@@ -819,11 +801,6 @@ func (d decoder) decodeMapStringInterface(b []byte, p unsafe.Pointer) ([]byte, e
 
 		b, err = d.decodeInterface(b, unsafe.Pointer(&val))
 		if err != nil {
-			_, r, err2 := parseValue(input)
-			if err2 != nil {
-				return r, err2
-			}
-			b = r
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
 				e.Struct = mapStringInterfaceType.String() + e.Struct
@@ -851,7 +828,6 @@ func (d decoder) decodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 		m = make(map[string]RawMessage)
 	}
 
-	input := b
 	if d.depth++; d.depth > maxNestingDepth {
 		return b, syntaxError(b, "exceeded max depth")
 	}
@@ -875,12 +851,6 @@ func (d decoder) decodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 
 		b, err = d.decodeRawMessage(b, unsafe.Pointer(&val))
 		if err != nil {
-			_, r, err2 := parseValue(input)
-			if err2 != nil {
-				return r, err2
-			}
-			b = r
-
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
 				e.Struct = mapStringRawMessageType.String() + e.Struct
@@ -941,7 +911,6 @@ func (d decoder) decodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 	// memory buffer used to convert short field names to lowercase
 	var buf [64]byte
 	var key []byte
-	input := b
 
 	if d.depth++; d.depth > maxNestingDepth {
 		return b, syntaxError(b, "exceeded max depth")
@@ -1006,12 +975,6 @@ func (d decoder) decodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		}
 
 		if err != nil {
-			_, r, err2 := parseValue(input)
-			if err2 != nil {
-				return r, err2
-			}
-			b = r
-
 			var e *UnmarshalTypeError
 			if errors.As(err, &e) {
 				e.Struct = st.typ.String() + e.Struct
@@ -1069,22 +1032,33 @@ func (d decoder) decodeInterface(b []byte, p unsafe.Pointer) ([]byte, error) {
 		}
 	}
 
+	// Objects and arrays are decoded without looking for their end first, which
+	// would be looked for again at each level of nesting.
+	if len(b) != 0 {
+		var err error
+		switch b[0] {
+		case '{':
+			m := make(map[string]interface{})
+			if b, err = d.decodeMapStringInterface(b, unsafe.Pointer(&m)); err == nil {
+				*(*interface{})(p) = m
+			}
+			return b, err
+
+		case '[':
+			a := make([]interface{}, 0, 10)
+			if b, err = d.decodeSlice(b, unsafe.Pointer(&a), unsafe.Sizeof(a[0]), sliceInterfaceType, decoder.decodeInterface); err == nil {
+				*(*interface{})(p) = a
+			}
+			return b, err
+		}
+	}
+
 	v, b, err := parseValue(b)
 	if err != nil {
 		return b, err
 	}
 
 	switch v[0] {
-	case '{':
-		m := make(map[string]interface{})
-		v, err = d.decodeMapStringInterface(v, unsafe.Pointer(&m))
-		val = m
-
-	case '[':
-		a := make([]interface{}, 0, 10)
-		v, err = d.decodeSlice(v, unsafe.Pointer(&a), unsafe.Sizeof(a[0]), sliceInterfaceType, decoder.decodeInterface)
-		val = a
-
 	case '"':
 		s := ""
 		v, err = d.decodeString(v, unsafe.Pointer(&s))
-- 
2.43.0

