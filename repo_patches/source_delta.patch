From c4f0caedf298ba580eb322a95029d2ab173611c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:04 +0000
Subject: [PATCH 01/92] fix: parse strings whose contents end in an escaped
 backslash

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index ee0ffb2..6e2192a 100644
--- a/parser.go
+++ b/parser.go
@@ -144,8 +144,8 @@ readString:
 		i := strings.IndexByte(s, delimString) - 1
 		if 0 <= i && i < len(s) {
 			if s[i] == delimEscape {
-				// Advance past '\' and '"' and scan the remaining string
-				for i += 2; 0 <= i && i < len(s); i++ { // Avoid bounds check
+				// The '\' might itself be escaped, scan from the first escape
+				for i = strings.IndexByte(s, delimEscape); 0 <= i && i < len(s); i++ { // Avoid bounds check
 					switch s[i] {
 					case delimString:
 						// Slice until the closing quote
-- 
2.43.0


From 0c98300560c113f674697c6d168420745ed2561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:25 +0000
Subject: [PATCH 02/92] fix: round parsed floats correctly and reject a doubled
 exponent sign

---
 numjson/numjson.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/numjson/numjson.go b/numjson/numjson.go
index fb3c233..ab91ff0 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -7,14 +7,21 @@ import (
 
 var fNaN = math.NaN()
 
+// A number with up to 15 digits and a power of ten up to 22 are both exact as float64
+// so their product or quotient is correctly rounded.
+const (
+	maxExactDigits = 15
+	maxExactPow10  = 22
+)
+
 // ParseFloat parses a float number from a string.
 func ParseFloat(s string) float64 {
 	var (
 		i      uint
 		j      int
 		c      byte
+		n      int
 		num    uint64
-		dec    uint64
 		f      float64
 		signed bool
 	)
@@ -35,6 +42,7 @@ func ParseFloat(s string) float64 {
 		c = s[i]
 		if '0' <= c && c <= '9' {
 			num = num*10 + uint64(c-'0')
+			n++
 			j++
 			continue
 		}
@@ -55,12 +63,14 @@ func ParseFloat(s string) float64 {
 	}
 	goto fallback
 decimal:
+	// From here on j is the number of decimal digits
+	j = 0
 	if c == '.' {
-		j = 0
 		for i++; i < uint(len(s)); i++ {
 			c = s[i]
 			if '0' <= c && c <= '9' {
-				dec = 10*dec + uint64(c-'0')
+				num = 10*num + uint64(c-'0')
+				n++
 				j++
 				continue
 			}
@@ -69,8 +79,8 @@ decimal:
 			}
 			return fNaN
 		}
-		if 0 < j && j <= 18 {
-			f = float64(num) + float64(dec)*math.Pow10(-j)
+		if 0 < j && n <= maxExactDigits {
+			f = float64(num) / math.Pow10(j)
 			if signed {
 				return -f
 			}
@@ -90,10 +100,12 @@ scientific:
 			c = s[i]
 			if '0' <= c && c <= '9' {
 				jj++
-				exp = 10*exp + int(c-'0')
+				if exp < 1e6 {
+					exp = 10*exp + int(c-'0')
+				}
 				continue
 			}
-			if jj == 0 {
+			if prev := s[i-1]; prev == 'e' || prev == 'E' {
 				switch c {
 				case '-':
 					signed = true
@@ -107,13 +119,16 @@ scientific:
 		if jj == 0 {
 			return fNaN
 		}
-		if exp > 300 {
+		if signed {
+			exp = -exp
+		}
+		if exp -= j; n > maxExactDigits || exp < -maxExactPow10 || exp > maxExactPow10 {
 			goto fallback
 		}
-		if signed {
-			f = (float64(num) + float64(dec)*math.Pow10(-j)) * math.Pow10(-exp)
+		if exp < 0 {
+			f = float64(num) / math.Pow10(-exp)
 		} else {
-			f = float64(num)*math.Pow10(exp) + float64(dec)*math.Pow10(exp-j)
+			f = float64(num) * math.Pow10(exp)
 		}
 		goto done
 	}
-- 
2.43.0


From 4052528c6129f61ffeb4939c4967e614412bd7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:26 +0000
Subject: [PATCH 03/92] fix: parse integers exactly over their whole range

---
 node.go            |  7 ++-----
 numjson/numjson.go | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/node.go b/node.go
index 2fd55ec..da30914 100644
--- a/node.go
+++ b/node.go
@@ -4,7 +4,6 @@ import (
 	"encoding"
 	"encoding/json"
 	"io"
-	"math"
 	"strconv"
 	"sync"
 
@@ -103,8 +102,7 @@ func (n Node) ToFloat() (float64, bool) {
 // ToInt converts a node's value to int64.
 func (n Node) ToInt() (int64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
+		return numjson.ParseInt(n.raw)
 	}
 	return 0, false
 }
@@ -112,8 +110,7 @@ func (n Node) ToInt() (int64, bool) {
 // ToUint converts a node's  value to uint64.
 func (n Node) ToUint() (uint64, bool) {
 	if n := n.get(); n != nil {
-		f := numjson.ParseFloat(n.raw)
-		return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
+		return numjson.ParseUint(n.raw)
 	}
 	return 0, false
 }
diff --git a/numjson/numjson.go b/numjson/numjson.go
index ab91ff0..473239e 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -1,6 +1,7 @@
 package numjson
 
 import (
+	"errors"
 	"math"
 	"strconv"
 )
@@ -146,12 +147,28 @@ fallback:
 
 // ParseInt parses an int from string
 func ParseInt(s string) (int64, bool) {
+	// A float64 cannot represent all integers
+	n, err := strconv.ParseInt(s, 10, 64)
+	if err == nil {
+		return n, s[0] != '+'
+	}
+	if errors.Is(err, strconv.ErrRange) {
+		return n, false
+	}
 	f := ParseFloat(s)
 	return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
 }
 
 // ParseUint parses an uint from string
 func ParseUint(s string) (uint64, bool) {
+	// A float64 cannot represent all integers
+	n, err := strconv.ParseUint(s, 10, 64)
+	if err == nil {
+		return n, true
+	}
+	if errors.Is(err, strconv.ErrRange) {
+		return n, false
+	}
 	f := ParseFloat(s)
 	return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
 }
-- 
2.43.0


From c0afef736abf568ab10194577ca14179ace2cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 04/92] fix: encode float64 values with 64 bits

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index cf89c9f..a9a05d0 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -131,7 +131,7 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	case reflect.Float32:
 		return newFloatEncoder(32, options)
 	case reflect.Float64:
-		return newFloatEncoder(32, options)
+		return newFloatEncoder(64, options)
 	case reflect.Bool:
 		return boolEncoder{}, nil
 	case reflect.String:
-- 
2.43.0


From 3d4b02605fd50b83981807d671d3084eb31ecc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 05/92] fix: report errors of slice and array elements when
 decoding

---
 unjson/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index e87e213..3a4bfe5 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -197,7 +197,9 @@ func (dec *arrayDecoder) decode(v reflect.Value, n njson.Node) error {
 		iter := n.Values()
 		for i := 0; i < dec.size; i++ {
 			if iter.Next() {
-				dec.decoder.decode(v.Index(i), iter.Value())
+				if err := dec.decoder.decode(v.Index(i), iter.Value()); err != nil {
+					return err
+				}
 			} else {
 				for ; i < dec.size; i++ {
 					el := v.Index(i)
@@ -265,7 +267,7 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 		return n.TypeError(njson.TypeArray | njson.TypeNull)
 
 	}
-	return nil
+	return err
 }
 
 type mapDecoder struct {
-- 
2.43.0


From 517efa1bf564fb37219eb5f1967853770a4d65bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:00 +0000
Subject: [PATCH 06/92] fix: report numbers that overflow the decoded type

---
 unjson/decode.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 3a4bfe5..24ef685 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"encoding/json"
 	"errors"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -415,14 +416,16 @@ type uintDecoder struct{}
 func (uintDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
-		n, ok := numjson.ParseUint(raw)
-		if ok {
-			v.SetUint(n)
-			return nil
+		i, ok := numjson.ParseUint(raw)
+		if !ok {
+			if i, err = strconv.ParseUint(raw, 10, 64); err != nil {
+				return
+			}
 		}
-		if n, err = strconv.ParseUint(raw, 10, 64); err == nil {
-			v.SetUint(n)
+		if v.OverflowUint(i) {
+			return n.TypeError(njson.TypeNumber)
 		}
+		v.SetUint(i)
 		return
 	default:
 		return n.TypeError(njson.TypeNumber)
@@ -437,14 +440,16 @@ type intDecoder struct{}
 func (intDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch raw, t := n.Data(); t {
 	case njson.TypeNumber:
-		n, ok := numjson.ParseInt(raw)
-		if ok {
-			v.SetInt(n)
-			return nil
+		i, ok := numjson.ParseInt(raw)
+		if !ok {
+			if i, err = strconv.ParseInt(raw, 10, 64); err != nil {
+				return
+			}
 		}
-		if n, err = strconv.ParseInt(raw, 10, 64); err == nil {
-			v.SetInt(n)
+		if v.OverflowInt(i) {
+			return n.TypeError(njson.TypeNumber)
 		}
+		v.SetInt(i)
 		return
 	default:
 		return n.TypeError(njson.TypeNumber)
@@ -461,6 +466,9 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNumber:
 		f := numjson.ParseFloat(raw)
 		if f == f {
+			if math.IsInf(f, 0) || v.OverflowFloat(f) {
+				return n.TypeError(njson.TypeNumber)
+			}
 			v.SetFloat(f)
 			return nil
 		}
-- 
2.43.0


From e3bfa48094d8a88c7089ad523cd8058cece21736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:13 +0000
Subject: [PATCH 07/92] fix: decode to nil maps, named key types and escaped
 map keys

---
 unjson/decode.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 24ef685..85c15b1 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -273,7 +273,7 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 
 type mapDecoder struct {
 	typ       reflect.Type
-	keys      decoder
+	textKeys  bool
 	decoder   decoder
 	zeroKey   reflect.Value
 	zeroValue reflect.Value
@@ -287,11 +287,9 @@ func newMapDecoder(typ reflect.Type, options *Options, codecs cache) (*mapDecode
 		zeroKey:   reflect.Zero(key),
 		zeroValue: reflect.Zero(el),
 	}
-	if key.Implements(typTextUnmarshaler) {
-		md.keys = textDecoder{}
-	} else if key.Kind() == reflect.String {
-		md.keys = stringDecoder{}
-	} else {
+	if reflect.PtrTo(key).Implements(typTextUnmarshaler) {
+		md.textKeys = true
+	} else if key.Kind() != reflect.String {
 		return nil, errInvalidType
 	}
 	// First cache the decoder to avoid recursion issues
@@ -309,14 +307,22 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 		return
 	case njson.TypeObject:
 		val := reflect.New(d.typ.Elem()).Elem()
+		key := reflect.New(d.typ.Key()).Elem()
 		iter := n.Values()
+		if v.IsNil() {
+			v.Set(reflect.MakeMap(d.typ))
+		}
 		for iter.Next() {
 			val.Set(d.zeroValue)
 			err = d.decoder.decode(val, iter.Value())
 			if err != nil {
 				return
 			}
-			v.SetMapIndex(reflect.ValueOf(iter.Key()), val)
+			key.Set(d.zeroKey)
+			if err = d.decodeKey(key, iter.Key()); err != nil {
+				return
+			}
+			v.SetMapIndex(key, val)
 		}
 		return
 	default:
@@ -324,6 +330,15 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	}
 }
 
+func (d *mapDecoder) decodeKey(key reflect.Value, escaped string) error {
+	name := strjson.Unescaped(escaped)
+	if d.textKeys {
+		return key.Addr().Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(name))
+	}
+	key.SetString(name)
+	return nil
+}
+
 type ptrDecoder struct {
 	decoder decoder
 	zero    reflect.Value
-- 
2.43.0


From c307be8101d9d0dd9999db9bcea7f630f5e1a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:14 +0000
Subject: [PATCH 08/92] fix: replace shadowed embedded fields instead of
 duplicating their key

---
 unjson/codec.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 08ebc0a..5a162c8 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -120,7 +120,8 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 			}
 		}
 		// tag = string(strjson.Escape(nil, tag))
-		if ff := c.Get(tag); ff != nil && cmpIndex(ff.index, index) != -1 {
+		ff := c.Get(tag)
+		if ff != nil && cmpIndex(ff.index, index) != -1 {
 			continue
 		}
 
@@ -144,13 +145,19 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 			omit = omitNever{}
 		}
 
-		c.Add(codec{
+		f := codec{
 			key:     tag,
 			index:   copyIndex(index),
 			decoder: dec,
 			encoder: enc,
 			omiter:  omit,
-		})
+		}
+		if ff != nil {
+			// The field is less nested than the one already using the key
+			*ff = f
+		} else {
+			c.Add(f)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From ca34f392d2e367db9500f23fa013c9fe410f36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:15 +0000
Subject: [PATCH 09/92] fix: keep values decoded through a nil embedded pointer

---
 unjson/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 5a162c8..4252ea5 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -225,7 +225,7 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 				for _, i := range fc.index[1:] {
 					if i == -1 {
 						if field.IsNil() {
-							field = reflect.New(field.Type().Elem())
+							field.Set(reflect.New(field.Type().Elem()))
 						}
 						field = field.Elem()
 					} else {
-- 
2.43.0


From 10af55016bb3fb28cac304693a4afd62a9415b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:55 +0000
Subject: [PATCH 10/92] fix: encode nil pointers and values whose pointer has
 the marshal hooks

---
 unjson/encode.go | 53 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index a9a05d0..6996af2 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -42,9 +42,12 @@ func (m *typeEncoder) Encode(out []byte, x interface{}) ([]byte, error) {
 	}
 	v := reflect.ValueOf(x)
 	if v.Kind() == reflect.Ptr {
+		if v.IsNil() && v.Type().Elem() == m.typ {
+			return append(out, strNull...), nil
+		}
 		v = v.Elem()
 	}
-	if v.Type() != m.typ {
+	if !v.IsValid() || v.Type() != m.typ {
 		return out, errInvalidValueType
 	}
 	return m.encode(out, v)
@@ -101,11 +104,11 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 		return nil, errInvalidType
 	}
 	switch {
-	case typ.Implements(typAppender):
+	case hasHook(typ, typAppender):
 		return njsonEncoder{}, nil
-	case typ.Implements(typJSONMarshaler):
+	case hasHook(typ, typJSONMarshaler):
 		return jsonEncoder{}, nil
-	case typ.Implements(typTextMarshaler):
+	case hasHook(typ, typTextMarshaler):
 		return textEncoder{}, nil
 	}
 	switch typ.Kind() {
@@ -141,16 +144,48 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	}
 }
 
+// hasHook checks if a type or its pointer implements a hook interface
+func hasHook(typ, hook reflect.Type) bool {
+	return typ.Implements(hook) || reflect.PtrTo(typ).Implements(hook)
+}
+
+// hookValue returns the value implementing a hook interface, that is v or a pointer to it.
+// It returns nil if v is nil.
+func hookValue(v reflect.Value, hook reflect.Type) interface{} {
+	switch v.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		if v.IsNil() {
+			return nil
+		}
+	}
+	if v.Type().Implements(hook) {
+		return v.Interface()
+	}
+	if v.CanAddr() {
+		return v.Addr().Interface()
+	}
+	p := reflect.New(v.Type())
+	p.Elem().Set(v)
+	return p.Interface()
+}
+
 type njsonEncoder struct{}
 
 func (njsonEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
-	return v.Interface().(njson.Appender).AppendJSON(out)
+	if a, ok := hookValue(v, typAppender).(njson.Appender); ok {
+		return a.AppendJSON(out)
+	}
+	return append(out, strNull...), nil
 }
 
 type jsonEncoder struct{}
 
 func (jsonEncoder) encode(out []byte, v reflect.Value) (b []byte, err error) {
-	b, err = v.Interface().(json.Marshaler).MarshalJSON()
+	m, ok := hookValue(v, typJSONMarshaler).(json.Marshaler)
+	if !ok {
+		return append(out, strNull...), nil
+	}
+	b, err = m.MarshalJSON()
 	if err == nil && b != nil {
 		out = append(out, b...)
 	}
@@ -207,7 +242,11 @@ func (c interfaceEncoder) encode(b []byte, v reflect.Value) ([]byte, error) {
 type textEncoder struct{}
 
 func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error) {
-	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
+	m, ok := hookValue(v, typTextMarshaler).(encoding.TextMarshaler)
+	if !ok {
+		return append(out, strNull...), nil
+	}
+	text, err = m.MarshalText()
 	if err == nil {
 		out = append(out, delimString)
 		out = append(out, text...)
-- 
2.43.0


From da2b3e2a03c43dce81ad42435f813e6bb82585aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 11/92] fix: escape and unescape the text of
 encoding.Text(Un)Marshaler values

---
 node.go          | 2 +-
 unjson/encode.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index da30914..0b2f1e3 100644
--- a/node.go
+++ b/node.go
@@ -223,7 +223,7 @@ func (n Node) WrapUnmarshalText(u encoding.TextUnmarshaler) (err error) {
 		switch t := node.info.Type(); t {
 		case TypeString:
 			buf := bufferpool.Get().([]byte)
-			buf = append(buf[:0], node.raw...)
+			buf = strjson.AppendUnescaped(buf[:0], node.raw)
 			err = u.UnmarshalText(buf)
 			bufferpool.Put(buf)
 			return
diff --git a/unjson/encode.go b/unjson/encode.go
index 6996af2..4569eb0 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -249,7 +249,7 @@ func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error)
 	text, err = m.MarshalText()
 	if err == nil {
 		out = append(out, delimString)
-		out = append(out, text...)
+		out = strjson.AppendEscaped(out, string(text), false)
 		out = append(out, delimString)
 	}
 	return out, err
-- 
2.43.0


From 0bbec7b0aeead8e87d76e68f15cb8428209d0f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:22 +0000
Subject: [PATCH 12/92] fix: return an error instead of panicking when decoding
 to a nil pointer

---
 unjson/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 85c15b1..21b6fd5 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -37,7 +37,7 @@ type typeDecoder struct {
 }
 
 // Decode implements the Decoder interface.
-// It handles the case of a x being a nil pointer by creating a new blank value.
+// If x is a nil pointer there is nowhere to store a non null value so it returns an error.
 func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 	if x == nil {
 		return errInvalidValueType
@@ -50,7 +50,7 @@ func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 		if n.Type() == njson.TypeNull {
 			return nil
 		}
-		v.Set(reflect.New(c.typ.Elem()))
+		return errInvalidValueType
 	}
 	return c.decode(v.Elem(), n)
 }
@@ -391,6 +391,9 @@ type interfaceDecoder struct{}
 
 func (interfaceDecoder) Decode(x interface{}, n njson.Node) error {
 	if x, ok := x.(*interface{}); ok {
+		if x == nil {
+			return errInvalidValueType
+		}
 		if *x, ok = n.ToInterface(); !ok {
 			return n.TypeError(njson.TypeAnyValue)
 		}
-- 
2.43.0


From 0ca7bc054e898e88428e2b69c7f12c7ccc05a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:23 +0000
Subject: [PATCH 13/92] fix: decode to named empty interface types

---
 unjson/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 21b6fd5..b77a385 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -407,8 +407,11 @@ func (interfaceDecoder) decode(v reflect.Value, n njson.Node) error {
 		return errInvalidValueType
 	}
 	if x, ok := n.ToInterface(); ok {
-		xx := v.Addr().Interface().(*interface{})
-		*xx = x
+		if x == nil {
+			v.Set(reflect.Zero(v.Type()))
+		} else {
+			v.Set(reflect.ValueOf(x))
+		}
 		return nil
 	}
 	return n.TypeError(njson.TypeAnyValue)
-- 
2.43.0


From 4ea3fb5c01a60d9bc57e711363d10dfa89222252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:10 +0000
Subject: [PATCH 14/92] fix: honour unmarshal hooks of values and nil pointers
 when decoding

---
 unjson/decode.go | 51 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index b77a385..7578394 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -62,6 +62,23 @@ var (
 	errNilNode          = errors.New("Nil JSON node")
 )
 
+// hookTarget returns a pointer to v or the value of a nillable interface
+// to be used as the receiver of an unmarshal hook.
+func hookTarget(v reflect.Value) interface{} {
+	if v.Kind() != reflect.Interface && v.CanAddr() {
+		v = v.Addr()
+	}
+	return v.Interface()
+}
+
+// decodeNil decodes a node to a nil interface
+func decodeNil(n njson.Node) error {
+	if n.Type() == njson.TypeNull {
+		return nil
+	}
+	return errInvalidValueType
+}
+
 // njsonDecoder implements the Decoder interface for types implementing njson.Unmarshaler
 type njsonDecoder struct{}
 
@@ -73,7 +90,10 @@ func (njsonDecoder) Decode(x interface{}, n njson.Node) error {
 }
 
 func (njsonDecoder) decode(v reflect.Value, n njson.Node) error {
-	return v.Interface().(njson.Unmarshaler).UnmarshalNodeJSON(n)
+	if u, ok := hookTarget(v).(njson.Unmarshaler); ok {
+		return u.UnmarshalNodeJSON(n)
+	}
+	return decodeNil(n)
 }
 
 // jsonDecoder implements the Decoder interface for types implementing json.Unmarshaller
@@ -88,7 +108,10 @@ func (jsonDecoder) Decode(x interface{}, n njson.Node) (err error) {
 }
 
 func (jsonDecoder) decode(v reflect.Value, n njson.Node) (err error) {
-	return n.WrapUnmarshalJSON(v.Interface().(json.Unmarshaler))
+	if u, ok := hookTarget(v).(json.Unmarshaler); ok {
+		return n.WrapUnmarshalJSON(u)
+	}
+	return decodeNil(n)
 }
 
 // NewTypeDecoder creates a new decoder for a type.
@@ -129,17 +152,18 @@ func newDecoder(typ reflect.Type, options *Options, codecs cache) (decoder, erro
 		return nil, errInvalidType
 	}
 	switch {
-	case typ.Implements(typNodeUnmarshaler):
+	case typ.Kind() == reflect.Ptr:
+		// Handles null and nil before any hooks of the pointer
+		return newPtrDecoder(typ, options, codecs)
+	case hasHook(typ, typNodeUnmarshaler):
 		return njsonDecoder{}, nil
-	case typ.Implements(typJSONUnmarshaler):
+	case hasHook(typ, typJSONUnmarshaler):
 		return jsonDecoder{}, nil
-	case typ.Implements(typTextUnmarshaler):
+	case hasHook(typ, typTextUnmarshaler):
 		return textDecoder{}, nil
 	}
 
 	switch typ.Kind() {
-	case reflect.Ptr:
-		return newPtrDecoder(typ, options, codecs)
 	case reflect.Struct:
 		return newStructCodec(typ, options, codecs)
 	case reflect.Slice:
@@ -508,10 +532,17 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 type textDecoder struct{}
 
 func (textDecoder) decode(v reflect.Value, n njson.Node) error {
-	if n.Type() == njson.TypeString {
-		return n.WrapUnmarshalText(v.Interface().(encoding.TextUnmarshaler))
+	switch n.Type() {
+	case njson.TypeString:
+		if u, ok := hookTarget(v).(encoding.TextUnmarshaler); ok {
+			return n.WrapUnmarshalText(u)
+		}
+		return errInvalidValueType
+	case njson.TypeNull:
+		return nil
+	default:
+		return n.TypeError(njson.TypeString)
 	}
-	return n.TypeError(njson.TypeString)
 }
 
 func (textDecoder) Decode(x interface{}, n njson.Node) error {
-- 
2.43.0


From bd0dd92ae83c95d08fb715d298143eb06f83b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:11 +0000
Subject: [PATCH 15/92] fix: report data after the JSON value when unmarshaling

---
 unjson/decode.go | 1 +
 unjson/unjson.go | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 7578394..0bc1e5d 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -60,6 +60,7 @@ var (
 	errValue            = errors.New("Unsupported value")
 	errInvalidType      = errors.New("Invalid type")
 	errNilNode          = errors.New("Nil JSON node")
+	errTail             = errors.New("Invalid data after JSON value")
 )
 
 // hookTarget returns a pointer to v or the value of a nillable interface
diff --git a/unjson/unjson.go b/unjson/unjson.go
index e6af236..d5d9a60 100644
--- a/unjson/unjson.go
+++ b/unjson/unjson.go
@@ -29,6 +29,7 @@ package unjson
 
 import (
 	"reflect"
+	"strings"
 
 	"github.com/alxarch/njson"
 )
@@ -71,9 +72,13 @@ func UnmarshalFromString(s string, x interface{}) (err error) {
 		return
 	}
 	p := njson.Blank()
-	n, _, err := p.Parse(s)
+	n, tail, err := p.Parse(s)
 	if err == nil {
-		err = d.Decode(x, n)
+		if strings.Trim(tail, " \t\r\n") == "" {
+			err = d.Decode(x, n)
+		} else {
+			err = errTail
+		}
 	}
 	p.Close()
 	return
-- 
2.43.0


From c5efdc8921cf604e27eef846348d067ea493f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:30 +0000
Subject: [PATCH 16/92] fix: omit nil pointers without calling the omit method
 of their element

---
 unjson/omit.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index 34f2fde..25b7e8d 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -119,17 +119,18 @@ func newCustomOmiter(typ reflect.Type, methodName string) omiter {
 	if methodName == "" {
 		methodName = defaultOmitMethod
 	}
-	if om := customOmiter(typ, methodName); om != nil {
-		return om
-	}
-
-	switch typ.Kind() {
-	case reflect.Ptr:
+	if typ.Kind() == reflect.Ptr {
 		// If pointer element implements omiter wrap it
+		// first, as the method is also promoted to the pointer
 		if om := customOmiter(typ.Elem(), methodName); om != nil {
 			return &ptrOmiter{om}
 		}
-	default:
+	}
+	if om := customOmiter(typ, methodName); om != nil {
+		return om
+	}
+
+	if typ.Kind() != reflect.Ptr {
 		// If pointer to type implements omiter wrap it
 		if om := customOmiter(reflect.PtrTo(typ), methodName); om != nil {
 			return &elemOmiter{om}
-- 
2.43.0


From b44c04afc5eb4d0a4e232f905d6864a943ab63fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:31 +0000
Subject: [PATCH 17/92] fix: keep the escape following an unpaired surrogate
 when unescaping

---
 strjson/unescape.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/strjson/unescape.go b/strjson/unescape.go
index 5c55bbd..f7967cd 100644
--- a/strjson/unescape.go
+++ b/strjson/unescape.go
@@ -78,12 +78,14 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				// Consume the second escape only if it completes the pair
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
@@ -223,12 +225,14 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				// Consume the second escape only if it completes the pair
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
-- 
2.43.0


From c83d6ec0bf49a82103c78fa52e7c2a9719318f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:31 +0000
Subject: [PATCH 18/92] fix: unescape object keys when converting to
 interface{}

---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index ea8a555..7c155e2 100644
--- a/document.go
+++ b/document.go
@@ -226,7 +226,7 @@ func (d *Document) toInterfaceMap(values []V) (interface{}, bool) {
 		ok bool
 	)
 	for _, v := range values {
-		m[v.key], ok = d.toInterface(v.id)
+		m[strjson.Unescaped(v.key)], ok = d.toInterface(v.id)
 		if !ok {
 			return nil, false
 		}
-- 
2.43.0


From e2d312c525952bdac4395ee5987a6bb31172b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 19/92] fix: match escaped object keys to struct fields

---
 unjson/codec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 4252ea5..e3eb8c8 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -4,6 +4,7 @@ import (
 	"reflect"
 
 	"github.com/alxarch/njson"
+	"github.com/alxarch/njson/strjson"
 )
 
 type structCodec struct {
@@ -211,7 +212,7 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 			iter  = n.Values()
 		)
 		for iter.Next() {
-			fc = c.Get(iter.Key())
+			fc = c.Get(strjson.Unescaped(iter.Key()))
 			if fc == nil {
 				continue
 			}
-- 
2.43.0


From 3005f61e7b5d8b9622e5d9dbb28388f1ee513d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:49 +0000
Subject: [PATCH 20/92] fix: do not look up array values by empty or
 overflowing offsets

---
 document.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 7c155e2..aa2f9ea 100644
--- a/document.go
+++ b/document.go
@@ -76,9 +76,13 @@ lookup:
 					}
 				}
 			case TypeArray:
+				if key == "" {
+					return maxUint
+				}
 				i := 0
 				for _, c := range []byte(key) {
-					if c -= '0'; 0 <= c && c <= 9 {
+					// Stop before i overflows and becomes a valid offset
+					if c -= '0'; 0 <= c && c <= 9 && i < len(n.values) {
 						i = i*10 + int(c)
 					} else {
 						return maxUint
-- 
2.43.0


From 5d1191cb5dda71279c3078226062823bcd1e5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:50 +0000
Subject: [PATCH 21/92] fix: reslice arrays up to their length and down to
 empty

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 0b2f1e3..df12bfc 100644
--- a/node.go
+++ b/node.go
@@ -311,7 +311,7 @@ func (n Node) Append(values ...Node) {
 
 // Slice reslices an Array node.
 func (n Node) Slice(i, j int) {
-	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i < j && j < len(n.values) {
+	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i <= j && j <= len(n.values) {
 		n.values = n.values[i:j]
 	}
 }
-- 
2.43.0


From 18e16de4284cca296cfbe671a264a42589f67532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 22/92] fix: skip invalid nodes when appending to an array

---
 node.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index df12bfc..08dc6bb 100644
--- a/node.go
+++ b/node.go
@@ -297,10 +297,9 @@ func (n Node) Append(values ...Node) {
 	if nn := n.get(); nn != nil && nn.info.IsArray() {
 		vv := nn.values
 		for _, v := range values {
-			vv = append(vv, V{
-				id:  n.doc.copyOrAdopt(v.Document(), v.ID(), n.id),
-				key: "",
-			})
+			if id := n.doc.copyOrAdopt(v.Document(), v.ID(), n.id); id < maxUint {
+				vv = append(vv, V{id, ""})
+			}
 		}
 		// copyOrAdopt might grow nodes array invalidating nn pointer
 		n.doc.nodes[n.id].values = vv
-- 
2.43.0


From 4f401c8c52a88dfc66c9617194c18e95f5934a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:22 +0000
Subject: [PATCH 23/92] fix: strip keys from objects inside arrays

---
 node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 08dc6bb..a5ce9a4 100644
--- a/node.go
+++ b/node.go
@@ -342,7 +342,14 @@ func (n Node) Remove(i int) {
 
 // Strip recursively deletes a key from a node.
 func (n Node) Strip(key string) {
-	if nn := n.get(); nn != nil && nn.info.IsObject() {
+	nn := n.get()
+	if nn != nil && nn.info.IsArray() {
+		for i := range nn.values {
+			n.With(nn.values[i].id).Strip(key)
+		}
+		return
+	}
+	if nn != nil && nn.info.IsObject() {
 		for i := range nn.values {
 			v := &nn.values[i]
 			if key == v.key {
-- 
2.43.0


From 9cfa09c4ec7a7bb69b35d057bd8dd17ae8383439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 24/92] fix: do not mark copies of root nodes as orphans

---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index aa2f9ea..2655aa7 100644
--- a/document.go
+++ b/document.go
@@ -308,7 +308,7 @@ func (d *Document) ncopy(other *Document, n *node) uint {
 	values := cp.values[:cap(cp.values)]
 	*cp = node{
 		raw:  n.raw,
-		info: n.info,
+		info: n.info &^ infRoot, // Copies always have a parent
 	}
 	numV := uint(0)
 	for i := range n.values {
-- 
2.43.0


From e4122e0a6c0009b8be52f9ac7824ba38becf4b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:35 +0000
Subject: [PATCH 25/92] fix: copy instead of adopting a node that contains its
 new parent

---
 document.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 2655aa7..64dffc2 100644
--- a/document.go
+++ b/document.go
@@ -350,7 +350,8 @@ func (d *Document) copyOrAdopt(other *Document, id, to uint) uint {
 		return maxUint
 	}
 	if other == d {
-		if id != to && n.info.IsRoot() && id != 0 {
+		// An orphan containing the target node cannot become its value
+		if id != to && n.info.IsRoot() && id != 0 && !d.contains(id, to) {
 			n.info &^= infRoot
 			return id
 		}
@@ -358,6 +359,25 @@ func (d *Document) copyOrAdopt(other *Document, id, to uint) uint {
 	return d.ncopy(other, n)
 }
 
+// contains checks if the non root node with id target is in the tree of the node with id.
+func (d *Document) contains(id, target uint) bool {
+	if n := d.get(target); n == nil || n.info.IsRoot() {
+		return false
+	}
+	return d.reaches(id, target)
+}
+
+func (d *Document) reaches(id, target uint) bool {
+	if n := d.get(id); n != nil {
+		for i := range n.values {
+			if v := n.values[i].id; v == target || d.reaches(v, target) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (d *Document) grow() (n *node) {
 	if len(d.nodes) < cap(d.nodes) {
 		d.nodes = d.nodes[:len(d.nodes)+1]
-- 
2.43.0


From 3b72301094bd6ae8541b6c2fa7803362c4c4e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:36 +0000
Subject: [PATCH 26/92] fix: reset the document of a LineDecoder between lines

---
 unjson/stream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unjson/stream.go b/unjson/stream.go
index c0c1f79..b64200a 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -42,6 +42,8 @@ func (d *LineDecoder) Decode(x interface{}) (err error) {
 		if isPrefix {
 			continue
 		}
+		// Reuse the nodes of the previous line
+		d.p.Reset()
 		n, tail, err := d.p.Parse(s.String())
 		if err != nil {
 			return err
-- 
2.43.0


From 1617e5a66d181bed947247f4d54053c64b426a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:45 +0000
Subject: [PATCH 27/92] fix: generate fields and imports in a stable order

---
 internal/generator/append.go    | 16 +---------
 internal/generator/generator.go | 40 +++++++++++++++++++++++-
 internal/generator/unmarshal.go | 55 ++++++++++++++-------------------
 3 files changed, 63 insertions(+), 48 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 11f41f8..c5e6536 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -3,7 +3,6 @@ package generator
 import (
 	"fmt"
 	"go/types"
-	"sort"
 	"strings"
 
 	"github.com/alxarch/meta"
@@ -120,16 +119,7 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 // StructAppender returns the AppendJSON block code for a struct
 func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 	c = c.Println(`more := 0`)
-	sortedFields := []meta.Field{}
-	for name := range fields {
-		sortedFields = append(sortedFields, fields[name]...)
-	}
-	sort.SliceStable(sortedFields, func(i, j int) bool {
-		return sortedFields[i].Tag < sortedFields[j].Tag
-	})
-	used := make(map[string]bool)
-	for _, field := range sortedFields {
-		field = field.WithTag(g.TagKey())
+	for _, field := range g.sortFields(fields) {
 		name, tag, ok := g.parseField(field.Var, field.Tag)
 		if !ok {
 			continue
@@ -137,10 +127,6 @@ func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 		if tag.Name != "" {
 			name = tag.Name
 		}
-		if used[name] {
-			continue
-		}
-		used[name] = true
 		var cf meta.Code
 		cf = g.TypeAppender(field.Type(), tag.Params)
 		cf = g.Code(`
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 1dc7c54..d974a89 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -19,6 +19,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -53,6 +54,37 @@ func (g *Generator) AllStructs() (all []string) {
 	return
 }
 
+// sortFields returns the fields of a struct in the order they are declared.
+// If fields have the same JSON name, only the least nested is returned.
+func (g *Generator) sortFields(fields meta.Fields) (sorted []meta.Field) {
+	for name := range fields {
+		for _, field := range fields[name] {
+			sorted = append(sorted, field.WithTag(g.TagKey()))
+		}
+	}
+	sort.Slice(sorted, func(i, j int) bool {
+		return meta.ShortestPath(sorted[i].Path, sorted[j].Path) == -1
+	})
+	used := make(map[string]bool, len(sorted))
+	unique := sorted[:0]
+	for _, field := range sorted {
+		if _, tag, ok := g.parseField(field.Var, field.Tag); ok && !used[tag.Name] {
+			used[tag.Name] = true
+			unique = append(unique, field)
+		}
+	}
+	sort.Slice(unique, func(i, j int) bool {
+		a, b := unique[i].Path, unique[j].Path
+		for k := 0; k < len(a) && k < len(b); k++ {
+			if a[k].Index != b[k].Index {
+				return a[k].Index < b[k].Index
+			}
+		}
+		return len(a) < len(b)
+	})
+	return unique
+}
+
 // NewFromFile creates a new Generator for a package named targetPkg and parses the specified file.
 func NewFromFile(filename string, src interface{}, options ...Option) (*Generator, error) {
 	p := meta.NewParser(parser.ParseComments | parser.DeclarationErrors)
@@ -210,7 +242,13 @@ func (g *Generator) Header() string {
 	h = append(h, fmt.Sprintf(headerComment, ts))
 	h = append(h, fmt.Sprintf("package %s", g.Name()))
 
-	for path, pkg := range g.imports {
+	paths := make([]string, 0, len(g.imports))
+	for path := range g.imports {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	for _, path := range paths {
+		pkg := g.imports[path]
 		if filepath.Base(path) == pkg.Name() {
 			h = append(h, fmt.Sprintf("import %q", path))
 		} else {
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index dd5a68e..f4b88da 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -301,35 +301,27 @@ func (g *Generator) RawStringUnmarshaler(t types.Type) meta.Code {
 // StructUnmarshaler generates the code block to unmarshal a struct.
 func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 	fields := meta.NewFields(t, true)
-	tagKey := g.TagKey()
-	used := make(map[string]bool)
-	for name := range fields {
-		for _, field := range fields[name] {
-			field = field.WithTag(tagKey)
-			if field.Name() == "_" {
-				continue
-			}
-			if !CanUnmarshal(field.Type()) {
-				continue
-			}
-			name, tag, ok := g.parseField(field.Var, field.Tag)
-			if !ok {
-				continue
-			}
-			if tag.Name != "" {
-				name = tag.Name
-			}
-			if used[name] {
-				continue
-			}
-			used[name] = true
-			var cf meta.Code
-			if tag.Params.Has("raw") && meta.IsString(field.Type()) {
-				cf = g.RawStringUnmarshaler(field.Type())
-			} else {
-				cf = g.TypeUnmarshaler(field.Type())
-			}
-			code = g.Code(`%s
+	for _, field := range g.sortFields(fields) {
+		if field.Name() == "_" {
+			continue
+		}
+		if !CanUnmarshal(field.Type()) {
+			continue
+		}
+		name, tag, ok := g.parseField(field.Var, field.Tag)
+		if !ok {
+			continue
+		}
+		if tag.Name != "" {
+			name = tag.Name
+		}
+		var cf meta.Code
+		if tag.Params.Has("raw") && meta.IsString(field.Type()) {
+			cf = g.RawStringUnmarshaler(field.Type())
+		} else {
+			cf = g.TypeUnmarshaler(field.Type())
+		}
+		code = g.Code(`%s
 				case %s:
 					n := n.With(values.ID())
 					%s{
@@ -337,9 +329,8 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 						%s
 					}
 					`, code, fmt.Sprintf("`%s`", name), g.EnsurePath(field.Path), field.Path, cf)
-			if code.Err() != nil {
-				return
-			}
+		if code.Err() != nil {
+			return
 		}
 	}
 	return g.Code(`
-- 
2.43.0


From 50b3d24c50c98420d5b81cf63a1c2aed243180e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:13 +0000
Subject: [PATCH 28/92] fix: generate code that compiles for empty interfaces

---
 internal/generator/append.go    | 2 +-
 internal/generator/unmarshal.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index c5e6536..d444c34 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -251,7 +251,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			return c.Println(`
 				// Fallback to json.Marshal for empty interface
 				if data, err := json.Marshal(v); err == nil {
-					out = append(out, data)
+					out = append(out, data...)
 				} else {
 					return out, err
 				}`).Import(jsonPkg)
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index f4b88da..c74cefe 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -152,7 +152,7 @@ default:
 
 // InterfaceUnmarshaler generates the code block to unmarshal an empty interface.
 func (g *Generator) InterfaceUnmarshaler(t types.Type, b *types.Interface) (code meta.Code) {
-	return code.Import(njsonPkg).Println(`if x, ok := n.ToInterface(); ok { *r = x } else { return n.TypeError(njson.AnyValue) }`)
+	return code.Import(njsonPkg).Println(`if x, ok := n.ToInterface(); ok { *r = x } else { return n.TypeError(njson.TypeAnyValue) }`)
 }
 
 // BasicUnmarshaler generates the code block to unmarshal a basic type.
-- 
2.43.0


From 507001e11c03a932a889cee7317825118d0f20ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:15 +0000
Subject: [PATCH 29/92] fix: do not quote map keys twice in generated code

---
 internal/generator/append.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index d444c34..4e63bd2 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -196,12 +196,11 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 				for k, v := range v {
 					out = append(out, "{,"[more])
 					more = 1
-					out = append(out, '"')
 					{
 						v := k
 						%s
 					}
-					out = append(out, '"', ':')
+					out = append(out, ':')
 					%s
 				}
 				out = append(out, "{}"[more:]...)
-- 
2.43.0


From 77451ff956135e8897c9c06463d4676533ac5601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:17 +0000
Subject: [PATCH 30/92] fix: use the defined receiver in generated calls to
 UnmarshalNodeJSON

---
 internal/generator/unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index c74cefe..172c275 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -196,7 +196,7 @@ func (g *Generator) EnsurePath(path meta.FieldPath) (code meta.Code) {
 // NodeJSONUnmarshaler generates code to wrap the UnmarshalNodeJSON method of a value.
 func (g *Generator) NodeJSONUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
-	if err := v.%s(n); err != nil {
+	if err := r.%s(n); err != nil {
 		return err
 	}
 	`, methodNodeUnmarshalJSON.Name())
-- 
2.43.0


From 2964ddebbc8c752d6cf72ef735df4fe697a59aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:19 +0000
Subject: [PATCH 31/92] fix: generate code that compiles for time.Duration

---
 internal/generator/unmarshal.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 172c275..04bbdd8 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -226,13 +226,13 @@ func (g *Generator) TimeUnmarshaler(t types.Type) (code meta.Code) {
 func (g *Generator) DurationUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
 	switch n.Type() {
-	case njson.Number:
-		if f, ok := n.ToNumber(); ok {
+	case njson.TypeNumber:
+		if f, ok := n.ToFloat(); ok {
 			*r = time.Duration(f)
 		} else {
-			return errors.New("Invalid JSON number")
+			return n.TypeError(njson.TypeNumber)
 		}
-	case njson.String:
+	case njson.TypeString:
 		if t, err := time.ParseDuration(n.Raw()); err != nil {
 			return err
 		} else {
-- 
2.43.0


From 5591076b4162ba8ddd2a0655cd77ee5ff5ae1edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 32/92] fix: dereference pointers to append their value in
 generated code

---
 internal/generator/append.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 4e63bd2..654e7a3 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -186,6 +186,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			if v == nil {
 				out = append(out, "null"...)
 			} else {
+				v := *v
 				%s
 			}
 		`, g.TypeAppender(t.Elem(), params))
-- 
2.43.0


From 792e6662a04d7766d422340503374ce2db5bc579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:48 +0000
Subject: [PATCH 33/92] fix: do not add extra values when generated code grows
 a slice

---
 internal/generator/unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 04bbdd8..f4cc8aa 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -114,7 +114,7 @@ case njson.TypeArray:
 	size := values.Len()
 	
 	if cap(*r) < size {
-		*r = make([]%s, len(*r) + size)
+		*r = make([]%s, size)
 	} else {
 		*r = (*r)[:size]
 	}
-- 
2.43.0


From 3da2cc1cd48fb517a156bddcc61e6d93169dcb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 34/92] fix: unescape object keys in generated code

---
 internal/generator/unmarshal.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index f4cc8aa..e3546a4 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -285,12 +285,12 @@ case njson.TypeObject:
 			r := &v
 			%[3]s
 		}
-		m[values.Key()] = v
+		m[%[1]s(strjson.Unescaped(values.Key()))] = v
 	}
 default:
 	return n.TypeError(njson.TypeObject|njson.TypeNull)
 }
-`, typK, typV, codeV).Import(njsonPkg)
+`, typK, typV, codeV).Import(njsonPkg, strjsonPkg)
 }
 
 // RawStringUnmarshaler unmarshals strings without unescaping
@@ -338,10 +338,10 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 			return n.TypeError(njson.TypeObject)
 		}
 		for values := n.Values(); values.Next(); {
-			switch values.Key() {
+			switch strjson.Unescaped(values.Key()) {
 				%s
 			}
-		}`, code).Import(njsonPkg)
+		}`, code).Import(njsonPkg, strjsonPkg)
 
 }
 
-- 
2.43.0


From aa2d886a13bc3dcecd1db51a505293403104069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 35/92] fix: report unsupported types when generating an
 unmarshaler

---
 internal/generator/unmarshal.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index e3546a4..1cdd40c 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -39,7 +39,11 @@ func (g *Generator) Unmarshaler(typeName string) (code meta.Code) {
 
 // WriteUnmarshaler writes an unmarshaler method for a type in the generator's buffer.
 func (g *Generator) WriteUnmarshaler(typeName string) (err error) {
-	code := g.Unmarshaler(typeName).Format()
+	code := g.Unmarshaler(typeName)
+	if err = code.Err(); err != nil {
+		return
+	}
+	code = code.Format()
 	if err = code.Err(); err != nil {
 		return
 	}
-- 
2.43.0


From 68243678936b3eccf64d76209c0014e4b01ca227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:09 +0000
Subject: [PATCH 36/92] fix: report values of other types decoded to strings in
 generated code

---
 internal/generator/unmarshal.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 1cdd40c..7b752aa 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -166,7 +166,16 @@ func (g *Generator) BasicUnmarshaler(t types.Type, b *types.Basic) (code meta.Co
 	case types.Bool:
 		c = "if b, ok := n.ToBool(); ok { *r = %s(b) } else { return n.TypeError(njson.TypeBoolean) }"
 	case types.String:
-		return g.Code("*r = %s(n.Unescaped())", t)
+		c = `
+	switch n.Type() {
+	case njson.TypeString:
+		*r = %[1]s(n.Unescaped())
+	case njson.TypeNull:
+		*r = ""
+	default:
+		return n.TypeError(njson.TypeString|njson.TypeNull)
+	}
+	`
 	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
 		c = "if i, ok := n.ToInt(); ok { *r = %s(i) } else { return n.TypeError(njson.TypeNumber) }"
 	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
-- 
2.43.0


From 610d2764a794b9c7472c54d42927ad93f503c5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:10 +0000
Subject: [PATCH 37/92] fix: report integers that overflow their type in
 generated code

---
 internal/generator/unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 7b752aa..e5f8564 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -177,9 +177,9 @@ func (g *Generator) BasicUnmarshaler(t types.Type, b *types.Basic) (code meta.Co
 	}
 	`
 	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
-		c = "if i, ok := n.ToInt(); ok { *r = %s(i) } else { return n.TypeError(njson.TypeNumber) }"
+		c = "if i, ok := n.ToInt(); ok && int64(%[1]s(i)) == i { *r = %[1]s(i) } else { return n.TypeError(njson.TypeNumber) }"
 	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
-		c = ("if u, ok := n.ToUint(); ok { *r = %s(u) } else { return n.TypeError(njson.TypeNumber) }")
+		c = ("if u, ok := n.ToUint(); ok && uint64(%[1]s(u)) == u { *r = %[1]s(u) } else { return n.TypeError(njson.TypeNumber) }")
 	case types.Float32, types.Float64:
 		c = "if f, ok := n.ToFloat(); ok { *r = %s(f) } else { return n.TypeError(njson.TypeNumber) }"
 	default:
-- 
2.43.0


From acfb4dbe73331b5532f924fcd4226bce40429bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 38/92] fix: convert named string types to append them in
 generated code

---
 internal/generator/append.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 654e7a3..52045f8 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -234,7 +234,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			}
 			return c.Println(`
 				out = append(out, '"')
-				out = strjson.AppendEscaped(out, v, false)
+				out = strjson.AppendEscaped(out, string(v), false)
 				out = append(out, '"')`).Import(strjsonPkg)
 		default:
 			if info := t.Info(); info&types.IsFloat != 0 {
-- 
2.43.0


From 6eb40de88783a4421ce7e0c569c16cefa09e23bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:32 +0000
Subject: [PATCH 39/92] fix: generate code that compiles for structs without
 fields

---
 internal/generator/append.go    | 3 +++
 internal/generator/unmarshal.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 52045f8..697b8e3 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -119,6 +119,9 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 // StructAppender returns the AppendJSON block code for a struct
 func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 	c = c.Println(`more := 0`)
+	if len(g.sortFields(fields)) == 0 {
+		c = c.Println(`_ = v`)
+	}
 	for _, field := range g.sortFields(fields) {
 		name, tag, ok := g.parseField(field.Var, field.Tag)
 		if !ok {
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index e5f8564..22f6eb5 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -346,6 +346,10 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 			return
 		}
 	}
+	if len(code.Code) == 0 {
+		// There are no cases to use the value
+		code = code.Println(`default: _ = r`)
+	}
 	return g.Code(`
 		if n.Type() != njson.TypeObject {
 			return n.TypeError(njson.TypeObject)
-- 
2.43.0


From d669b42942965e3d5d9aa04c37b3973258fef7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:21 +0000
Subject: [PATCH 40/92] fix: generate method calls for recursive types

---
 internal/generator/append.go    |  9 +++++++++
 internal/generator/generator.go | 18 ++++++++++++++++++
 internal/generator/unmarshal.go |  8 ++++++++
 3 files changed, 35 insertions(+)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 697b8e3..a56baea 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -222,6 +222,15 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			out = append(out, ']')
 		`, g.TypeAppender(t.Elem(), params))
 	case *types.Struct:
+		if !g.enter(typ) {
+			return g.Code(`
+			var err error
+			if out, err = v.%s(out); err != nil {
+				return out, err
+			}
+			`, g.AppendMethod())
+		}
+		defer g.leave()
 		fields := meta.NewFields(t, true)
 		return g.StructAppender(fields)
 	case *types.Basic:
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index d974a89..b91e3fe 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -35,6 +35,24 @@ type Generator struct {
 	test    bool
 	buffer  bytes.Buffer
 	imports map[string]*types.Package
+	stack   []types.Type // named struct types to generate inline code for
+}
+
+// enter adds a named struct type to the stack.
+// It returns false if the type is recursive so a method call is needed instead of inline code.
+func (g *Generator) enter(typ types.Type) bool {
+	for _, t := range g.stack {
+		if types.Identical(t, typ) {
+			return false
+		}
+	}
+	g.stack = append(g.stack, typ)
+	return true
+}
+
+// leave removes the last type added by enter.
+func (g *Generator) leave() {
+	g.stack = g.stack[:len(g.stack)-1]
 }
 
 type typeError struct {
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 22f6eb5..3901d98 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -91,6 +91,14 @@ func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 	case *types.Map:
 		return g.MapUnmarshaler(t, typ)
 	case *types.Struct:
+		if !g.enter(t) {
+			return g.Code(`
+			if err := r.%s(n); err != nil {
+				return err
+			}
+			`, g.UnmarshalMethod())
+		}
+		defer g.leave()
 		return g.StructUnmarshaler(typ)
 	case *types.Slice:
 		return g.SliceUnmarshaler(t, typ)
-- 
2.43.0


From 9f4aa975e1a0b852524bd4b2ba2327c3a5545283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:23 +0000
Subject: [PATCH 41/92] fix: escape the text of encoding.TextMarshaler values
 in generated code

---
 internal/generator/append.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index a56baea..6314f0a 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -178,9 +178,9 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			return out, err
 		}
 		out = append(out, '"')
-		out = append(out, data...)
+		out = strjson.AppendEscaped(out, string(data), false)
 		out = append(out, '"')
-		`)
+		`).Import(strjsonPkg)
 
 	}
 	switch t := typ.Underlying().(type) {
-- 
2.43.0


From 6b120c1b5c5ba528c70c3dd1a3286d9230b2cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:25 +0000
Subject: [PATCH 42/92] fix: call marshal hooks of pointers in generated code

---
 internal/generator/append.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 6314f0a..0c0575a 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -153,17 +153,24 @@ func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 	return
 }
 
+// implements checks if a type or its pointer implements an interface
+func implements(typ types.Type, iface *types.Interface) bool {
+	return types.Implements(typ, iface) || types.Implements(types.NewPointer(typ), iface)
+}
+
 // TypeAppender returnds the AppendJSON block code for a type
 func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Code) {
-	switch {
-	case types.Implements(typ, typJSONAppender):
+	switch _, isPointer := typ.Underlying().(*types.Pointer); {
+	case isPointer:
+		// Check for nil before using any methods of the pointer
+	case implements(typ, typJSONAppender):
 		return g.Code(`
 		var err error
 		if out, err = v.AppendJSON(out); err != nil {
 			return out, err
 		}
 		`)
-	case types.Implements(typ, typJSONMarshaler):
+	case implements(typ, typJSONMarshaler):
 		return g.Code(`
 		data, err := v.MarshalJSON()
 		if err != nil {
@@ -171,7 +178,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 		}
 		out = append(out, data...)
 		`)
-	case types.Implements(typ, typTextMarshaler):
+	case implements(typ, typTextMarshaler):
 		return g.Code(`
 		data, err := v.MarshalText()
 		if err != nil {
-- 
2.43.0


From 6c8abf02a094430dbb1178168569131f19e596e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:58 +0000
Subject: [PATCH 43/92] fix: do not dereference embedded pointers to types that
 are not structs

---
 unjson/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index e3eb8c8..54a0285 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -107,7 +107,7 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 		index = append(index[:depth], field.Index...)
 		if !tagged && field.Anonymous {
 			t := field.Type
-			if t.Kind() == reflect.Ptr {
+			if t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct {
 				// Flag for fieldByIndex
 				index = append(index, -1)
 				t = t.Elem()
-- 
2.43.0


From c1bc7054a209b02b247761fa3f046a2326f28299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:35 +0000
Subject: [PATCH 44/92] fix: stop AppendJSON tests of values without the method
 instead of panicking

---
 njsontest/t.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/njsontest/t.go b/njsontest/t.go
index 0dceb9f..2163bf3 100644
--- a/njsontest/t.go
+++ b/njsontest/t.go
@@ -49,6 +49,7 @@ func AppendJSON(x interface{}, options ...Option) func(t *testing.T) {
 		v := reflect.ValueOf(x)
 		if err := checkMethod(v, method); err != nil {
 			t.Errorf("Wrong value type: %s", err)
+			return
 		}
 		expect, err := test.json()
 		if err != nil {
-- 
2.43.0


From a7bd98aacb8e8551d44be78c0da4be35b57b23ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:58 +0000
Subject: [PATCH 45/92] fix: deliver a long last line and report read errors
 inside a line when decoding lines

---
 unjson/stream.go | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index b64200a..d0bfda3 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -32,30 +32,24 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 
 // Decode decodes the next JSON line in the stream to x
 func (d *LineDecoder) Decode(x interface{}) (err error) {
-	s := strings.Builder{}
-	for {
-		line, isPrefix, err := d.r.ReadLine()
-		if err != nil {
-			return err
-		}
-		s.Write(line)
-		if isPrefix {
-			continue
-		}
-		// Reuse the nodes of the previous line
-		d.p.Reset()
-		n, tail, err := d.p.Parse(s.String())
-		if err != nil {
-			return err
-		}
-		if strings.TrimSpace(tail) != "" {
-			return errors.New("Invalid line delimited JSON")
-		}
-		if d.Decoder == nil {
-			return UnmarshalFromNode(n, x)
-		}
-		return d.Decoder.Decode(x, n)
+	line, err := d.r.ReadString('\n')
+	// The last line may not be terminated
+	if err != nil && (err != io.EOF || line == "") {
+		return err
 	}
+	// Reuse the nodes of the previous line
+	d.p.Reset()
+	n, tail, err := d.p.Parse(strings.TrimRight(line, "\r\n"))
+	if err != nil {
+		return err
+	}
+	if strings.TrimSpace(tail) != "" {
+		return errors.New("Invalid line delimited JSON")
+	}
+	if d.Decoder == nil {
+		return UnmarshalFromNode(n, x)
+	}
+	return d.Decoder.Decode(x, n)
 }
 
 // LineEncoder encodes to a newline delimited JSON stream. (http://ndjson.org/)
-- 
2.43.0


From b443ae304a99f78c4e20566c03a5203c2835894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:59 +0000
Subject: [PATCH 46/92] fix: write values with line breaks between tokens as a
 single line

---
 unjson/stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unjson/stream.go b/unjson/stream.go
index d0bfda3..a389f84 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -78,6 +78,12 @@ func (e *LineEncoder) Encode(x interface{}) (err error) {
 	if err != nil {
 		return
 	}
+	// Line breaks can only be space between tokens written by marshal hooks
+	for i, c := range e.buffer {
+		if c == '\n' || c == '\r' {
+			e.buffer[i] = ' '
+		}
+	}
 	e.buffer = append(e.buffer, '\n')
 	_, err = e.w.Write(e.buffer)
 	return
-- 
2.43.0


From fec986a9a6618f8ddd4adc7f3d85715e14869cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:09 +0000
Subject: [PATCH 47/92] fix: embed structs whose tag has no name

---
 unjson/options.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unjson/options.go b/unjson/options.go
index 1c194b2..d8e0994 100644
--- a/unjson/options.go
+++ b/unjson/options.go
@@ -27,6 +27,8 @@ func (o *Options) parseField(f reflect.StructField) (name string, hints hint, ok
 	if name == "" {
 		// TODO: add Options.DefaultFieldCase
 		name = f.Name
+		// Only tags with a name turn an embedded struct to a field
+		ok = false
 	}
 	if o.OmitEmpty {
 		hints |= hintOmitempty
-- 
2.43.0


From d4ae1c3e4781fe5bf19b84dc9d660939fa839863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:10 +0000
Subject: [PATCH 48/92] fix: encode and decode the exported fields of embedded
 unexported structs

---
 unjson/codec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 54a0285..e36789e 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -95,12 +95,12 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 	v := reflect.New(typ).Elem()
 	depth := len(index)
 	for i := 0; i < n; i++ {
-		// Check field is exported and settable
-		if !v.Field(i).CanSet() {
-			continue
-		}
 		field := typ.Field(i)
 		tag, hints, tagged := options.parseField(field)
+		// Check field is exported and settable or an embedded struct that may have such fields
+		if !v.Field(i).CanSet() && (tagged || !field.Anonymous || field.Type.Kind() != reflect.Struct) {
+			continue
+		}
 		if tag == "-" {
 			continue
 		}
-- 
2.43.0


From 0097d19d90fb2baf11e5a2ec50150c1e7fb712d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:37 +0000
Subject: [PATCH 49/92] fix: count embedded pointers as one level when fields
 are shadowed

---
 unjson/codec.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index e36789e..7e6ec68 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -251,22 +251,32 @@ func copyIndex(a []int) (b []int) {
 }
 
 func cmpIndex(a, b []int) int {
-	if len(a) > len(b) {
+	if da, db := indexDepth(a), indexDepth(b); da > db {
 		return -1
+	} else if da < db {
+		return 1
 	}
-	if len(a) == len(b) {
-		// Avoid bounds check
-		b = b[:len(a)]
-		for i, j := range a {
-			if jj := b[i]; j > jj {
-				return -1
-			} else if jj > j {
-				return 1
-			}
+	for i, j := range a {
+		if i == len(b) {
+			break
+		}
+		if jj := b[i]; j > jj {
+			return -1
+		} else if jj > j {
+			return 1
+		}
+	}
+	return 0
+}
+
+// indexDepth counts the nesting levels of an index skipping pointer flags
+func indexDepth(index []int) (n int) {
+	for _, i := range index {
+		if i != -1 {
+			n++
 		}
-		return 0
 	}
-	return 1
+	return
 }
 
 type hint uint8
-- 
2.43.0


From 21ea19891fb4818713da1346cd4737b2e97d7c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:58 +0000
Subject: [PATCH 50/92] fix: decode numbers that round to the largest float32

---
 unjson/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 0bc1e5d..99a09f2 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -512,7 +512,11 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNumber:
 		f := numjson.ParseFloat(raw)
 		if f == f {
-			if math.IsInf(f, 0) || v.OverflowFloat(f) {
+			if v.Kind() == reflect.Float32 {
+				// Round before checking for overflow
+				f = float64(float32(f))
+			}
+			if math.IsInf(f, 0) {
 				return n.TypeError(njson.TypeNumber)
 			}
 			v.SetFloat(f)
-- 
2.43.0


From 2c8eed5714beadc160618ab103d5410949910d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:58 +0000
Subject: [PATCH 51/92] fix: accept only JSON space after the value of a line

---
 unjson/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index a389f84..9e24395 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -43,7 +43,7 @@ func (d *LineDecoder) Decode(x interface{}) (err error) {
 	if err != nil {
 		return err
 	}
-	if strings.TrimSpace(tail) != "" {
+	if strings.Trim(tail, " \t\r\n") != "" {
 		return errors.New("Invalid line delimited JSON")
 	}
 	if d.Decoder == nil {
-- 
2.43.0


From 07b70a2c0bd1520e66e28396f45e762f766871f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:03 +0000
Subject: [PATCH 52/92] fix: decode a null at the root to a text unmarshaler as
 everywhere else

---
 unjson/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unjson/decode.go b/unjson/decode.go
index 99a09f2..74e52d4 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -552,6 +552,9 @@ func (textDecoder) decode(v reflect.Value, n njson.Node) error {
 
 func (textDecoder) Decode(x interface{}, n njson.Node) error {
 	if u, ok := x.(encoding.TextUnmarshaler); ok {
+		if n.Type() == njson.TypeNull {
+			return nil
+		}
 		return n.WrapUnmarshalText(u)
 	}
 	return errInvalidValueType
-- 
2.43.0


From 96108f47e88cbd5dcbdaa8e5036c7b8f6488120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:15 +0000
Subject: [PATCH 53/92] fix: resolve the omission method of pointers to
 pointers one level at a time

---
 unjson/omit.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unjson/omit.go b/unjson/omit.go
index 25b7e8d..0248771 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -120,6 +120,13 @@ func newCustomOmiter(typ reflect.Type, methodName string) omiter {
 		methodName = defaultOmitMethod
 	}
 	if typ.Kind() == reflect.Ptr {
+		// Pointers to pointers are resolved one level at a time
+		if elem := typ.Elem(); elem.Kind() == reflect.Ptr {
+			if om := newCustomOmiter(elem, methodName); om != nil {
+				return &ptrOmiter{om}
+			}
+			return nil
+		}
 		// If pointer element implements omiter wrap it
 		// first, as the method is also promoted to the pointer
 		if om := customOmiter(typ.Elem(), methodName); om != nil {
-- 
2.43.0


From b9fc751eefd90fd439d4a2f5b654984c2bc529f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:21 +0000
Subject: [PATCH 54/92] fix: read lines from readers that are not buffered

---
 unjson/stream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index 9e24395..f6b0b86 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -22,8 +22,8 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 		return nil
 	}
 	d := LineDecoder{}
-	if r, ok := r.(*bufio.Reader); ok {
-		d.r = r
+	if br, ok := r.(*bufio.Reader); ok {
+		d.r = br
 	} else {
 		d.r = bufio.NewReader(r)
 	}
-- 
2.43.0


From ce60096765e12a1de0c22e5f916deb009c3552fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:56 +0000
Subject: [PATCH 55/92] fix: generator refuses maps with keys that are not
 strings

The code generated for them did not compile or was not valid JSON.
---
 internal/generator/append.go    | 9 +++++++++
 internal/generator/unmarshal.go | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 0c0575a..c48affb 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -158,6 +158,12 @@ func implements(typ types.Type, iface *types.Interface) bool {
 	return types.Implements(typ, iface) || types.Implements(types.NewPointer(typ), iface)
 }
 
+// isString checks if a type is a string or is defined as a string
+func isString(typ types.Type) bool {
+	b, ok := typ.Underlying().(*types.Basic)
+	return ok && b.Info()&types.IsString != 0
+}
+
 // TypeAppender returnds the AppendJSON block code for a type
 func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Code) {
 	switch _, isPointer := typ.Underlying().(*types.Pointer); {
@@ -201,6 +207,9 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			}
 		`, g.TypeAppender(t.Elem(), params))
 	case *types.Map:
+		if k := t.Key(); !isString(k) && !implements(k, typTextMarshaler) {
+			return c.Error(typeError{typ})
+		}
 		return g.Code(`
 			{
 				more := 0
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 3901d98..12fba49 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -278,6 +278,9 @@ func (g *Generator) TextUnmarshaler(t types.Type) (code meta.Code) {
 func (g *Generator) MapUnmarshaler(t types.Type, m *types.Map) (code meta.Code) {
 	// TODO: Enforce string, TextUnmarshaler key type
 	typK := m.Key()
+	if !isString(typK) {
+		return code.Error(typeError{t})
+	}
 	// var codeK meta.Code
 	// switch {
 	// case meta.IsString(typK):
-- 
2.43.0


From 3868a74ab820453f87bb088d515d208dbb5cafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:29 +0000
Subject: [PATCH 56/92] fix: generate methods in a stable order for packages of
 many files

---
 internal/generator/generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b91e3fe..7182f6d 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -69,6 +69,8 @@ func (g *Generator) AllStructs() (all []string) {
 	for _, typ := range types {
 		all = append(all, g.TypeString(typ))
 	}
+	// Files of a package are parsed in random order
+	sort.Strings(all)
 	return
 }
 
-- 
2.43.0


From b3701ae61f94f9086df6b94b5cde5f335117ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:04 +0000
Subject: [PATCH 57/92] fix: qualify types of other packages by package name in
 generated code

---
 internal/generator/generator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 7182f6d..e1dd5ba 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -63,6 +63,16 @@ func (e typeError) Error() string {
 	return fmt.Sprintf("Unsupported type %s %#v", e.typ, e.typ)
 }
 
+// Code prints code using the name of a package to qualify the types of other packages.
+func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
+	return c.QPrintf(func(pkg *types.Package) string {
+		if pkg.Path() == g.Path() {
+			return ""
+		}
+		return pkg.Name()
+	}, format, args...)
+}
+
 // AllStructs returns all structs from the package.
 func (g *Generator) AllStructs() (all []string) {
 	types := g.Package.DefinedTypes(meta.IsStruct)
-- 
2.43.0


From c3b7f731a232a727bf4b4d9bea852382c7654298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:48 +0000
Subject: [PATCH 58/92] fix: decode slices, maps and pointers of empty structs
 in generated code

---
 internal/generator/unmarshal.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 12fba49..22de1f7 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -379,10 +379,8 @@ func CanUnmarshal(t types.Type) bool {
 		return false
 	}
 	switch typ := t.Underlying().(type) {
-	case *types.Map:
+	case *types.Map, *types.Struct:
 		return true
-	case *types.Struct:
-		return typ.NumFields() > 0
 	case *types.Slice:
 		return CanUnmarshal(typ.Elem())
 	case *types.Pointer:
-- 
2.43.0


From 6dc37f63ce6c58d3866f746093d73d5f585602ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:44 +0000
Subject: [PATCH 59/92] fix: report floats that overflow their type in
 generated code

---
 internal/generator/generator.go | 1 +
 internal/generator/unmarshal.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index e1dd5ba..ad85c76 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -253,6 +253,7 @@ var (
 	typTextMarshaler   = encodingPkg.Scope().Lookup("TextMarshaler").Type().Underlying().(*types.Interface)
 
 	strconvPkg = meta.MustImport("strconv")
+	mathPkg    = meta.MustImport("math")
 )
 
 const (
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 22de1f7..f0d578c 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -189,7 +189,8 @@ func (g *Generator) BasicUnmarshaler(t types.Type, b *types.Basic) (code meta.Co
 	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
 		c = ("if u, ok := n.ToUint(); ok && uint64(%[1]s(u)) == u { *r = %[1]s(u) } else { return n.TypeError(njson.TypeNumber) }")
 	case types.Float32, types.Float64:
-		c = "if f, ok := n.ToFloat(); ok { *r = %s(f) } else { return n.TypeError(njson.TypeNumber) }"
+		c = "if f, ok := n.ToFloat(); ok && !math.IsInf(float64(%[1]s(f)), 0) { *r = %[1]s(f) } else { return n.TypeError(njson.TypeNumber) }"
+		return g.Code(c, t).Import(njsonPkg, mathPkg)
 	default:
 		return code.Error(typeError{t})
 	}
-- 
2.43.0


From 09e616d99e2a0cce769a0ba56555736d59bb516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:11 +0000
Subject: [PATCH 60/92] fix: import the packages of all types named in
 generated code

---
 internal/generator/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index ad85c76..3c04119 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -65,12 +65,15 @@ func (e typeError) Error() string {
 
 // Code prints code using the name of a package to qualify the types of other packages.
 func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
-	return c.QPrintf(func(pkg *types.Package) string {
+	var imports []interface{}
+	c = c.QPrintf(func(pkg *types.Package) string {
 		if pkg.Path() == g.Path() {
 			return ""
 		}
+		imports = append(imports, pkg)
 		return pkg.Name()
 	}, format, args...)
+	return c.Import(imports...)
 }
 
 // AllStructs returns all structs from the package.
-- 
2.43.0


From 23d0c3aa4c9d240b0227d2f48094281d512afbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 61/92] fix: end the merge of struct types that embed
 themselves

---
 unjson/codec.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/unjson/codec.go b/unjson/codec.go
index 7e6ec68..e501133 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -114,6 +114,10 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 			}
 			if t.Kind() == reflect.Struct {
 				// embedded struct
+				if isWithin(c.typ, index, t) {
+					// The fields of t are hidden by the less nested ones
+					continue
+				}
 				if err := c.merge(t, options, index, codecs); err != nil {
 					return err
 				}
@@ -269,6 +273,21 @@ func cmpIndex(a, b []int) int {
 	return 0
 }
 
+// isWithin checks if t is one of the structs on the way from a struct type to the field at index
+func isWithin(typ reflect.Type, index []int, t reflect.Type) bool {
+	for _, i := range index {
+		if i == -1 {
+			typ = typ.Elem()
+			continue
+		}
+		if typ == t {
+			return true
+		}
+		typ = typ.Field(i).Type
+	}
+	return false
+}
+
 // indexDepth counts the nesting levels of an index skipping pointer flags
 func indexDepth(index []int) (n int) {
 	for _, i := range index {
-- 
2.43.0


From 85bd6deaba8084336266a2f06d362538e739cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:07 +0000
Subject: [PATCH 62/92] fix: convert whole numbers of more than 20 digits with
 an exponent

---
 numjson/numjson.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numjson/numjson.go b/numjson/numjson.go
index 473239e..9ff5a50 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"math"
 	"strconv"
+	"strings"
 )
 
 var fNaN = math.NaN()
@@ -152,7 +153,7 @@ func ParseInt(s string) (int64, bool) {
 	if err == nil {
 		return n, s[0] != '+'
 	}
-	if errors.Is(err, strconv.ErrRange) {
+	if errors.Is(err, strconv.ErrRange) && strings.IndexAny(s, ".eE") == -1 {
 		return n, false
 	}
 	f := ParseFloat(s)
@@ -166,7 +167,7 @@ func ParseUint(s string) (uint64, bool) {
 	if err == nil {
 		return n, true
 	}
-	if errors.Is(err, strconv.ErrRange) {
+	if errors.Is(err, strconv.ErrRange) && strings.IndexAny(s, ".eE") == -1 {
 		return n, false
 	}
 	f := ParseFloat(s)
-- 
2.43.0


From e626f9468208bff9494c6866626e649a7bf1b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:59 +0000
Subject: [PATCH 63/92] fix: decode durations exactly in generated code

Numbers went through a float64, which lost the last digits of durations
above 2^53 nanoseconds, and those out of range became any duration.
---
 internal/generator/unmarshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index f0d578c..527dbb4 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -249,7 +249,9 @@ func (g *Generator) DurationUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
 	switch n.Type() {
 	case njson.TypeNumber:
-		if f, ok := n.ToFloat(); ok {
+		if i, ok := n.ToInt(); ok {
+			*r = time.Duration(i)
+		} else if f, ok := n.ToFloat(); ok && -1<<63 < f && f < 1<<63 {
 			*r = time.Duration(f)
 		} else {
 			return n.TypeError(njson.TypeNumber)
-- 
2.43.0


From b69c8271142d9f0882d0355b4ab28fa2d8c4690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:22 +0000
Subject: [PATCH 64/92] fix: refuse what is not a JSON number when decoding
 floats

---
 unjson/decode.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 74e52d4..3edaa1a 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -522,10 +522,8 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 			v.SetFloat(f)
 			return nil
 		}
-		if f, err = strconv.ParseFloat(raw, 64); err == nil {
-			v.SetFloat(f)
-		}
-		return
+		// Not a JSON number even if strconv parses it ie 0x1p4, 1_0, -inf
+		return n.TypeError(njson.TypeNumber)
 	case njson.TypeNull:
 		v.SetFloat(0)
 		return nil
-- 
2.43.0


From 510828034874cb73e73feb248f2993d6534db42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:47 +0000
Subject: [PATCH 65/92] fix: report numbers that overflow in generic values

---
 document.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 64dffc2..02f8d7e 100644
--- a/document.go
+++ b/document.go
@@ -1,6 +1,7 @@
 package njson
 
 import (
+	"math"
 	"sync"
 
 	"github.com/alxarch/njson/strjson"
@@ -218,7 +219,7 @@ func (d *Document) toInterface(id uint) (interface{}, bool) {
 		return nil, true
 	case TypeNumber:
 		f := numjson.ParseFloat(n.raw)
-		return f, f == f
+		return f, f == f && !math.IsInf(f, 0)
 	default:
 		return nil, false
 	}
-- 
2.43.0


From f9ac062742b8702ac12343baa51e2d1b316fd62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:19 +0000
Subject: [PATCH 66/92] fix: generate methods for types whose names do not
 begin with an ASCII letter

---
 internal/generator/append.go    |  3 +--
 internal/generator/generator.go | 12 ++++++++++++
 internal/generator/unmarshal.go |  4 +---
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index c48affb..483476c 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -25,7 +25,6 @@ func (g *Generator) Appender(typName string) (c meta.Code) {
 	if typ == nil {
 		return c.Errorf("Type %s not found", typName)
 	}
-	receiverName := strings.ToLower(typName[:1])
 	method := g.AppendMethod()
 	return g.Code(`
 		func (%[1]s *%[2]s) %[3]s(out []byte) ([]byte, error) {
@@ -36,7 +35,7 @@ func (g *Generator) Appender(typName string) (c meta.Code) {
 			}
 			return out, nil
 		}
-	`, receiverName, typ, method, g.TypeAppender(typ, nil))
+	`, receiverName(typName), typ, method, g.TypeAppender(typ, nil))
 
 }
 
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 3c04119..a05d21a 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -22,6 +22,7 @@ import (
 	"sort"
 	"strings"
 	"time"
+	"unicode"
 
 	"github.com/alxarch/meta"
 )
@@ -55,6 +56,17 @@ func (g *Generator) leave() {
 	g.stack = g.stack[:len(g.stack)-1]
 }
 
+// receiverName returns the name of the receiver for the methods of a type.
+func receiverName(typeName string) string {
+	for _, c := range typeName {
+		if unicode.IsLetter(c) {
+			return string(unicode.ToLower(c))
+		}
+		break
+	}
+	return "x"
+}
+
 type typeError struct {
 	typ types.Type
 }
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 527dbb4..144c909 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -3,7 +3,6 @@ package generator
 import (
 	"fmt"
 	"go/types"
-	"strings"
 
 	"github.com/alxarch/meta"
 )
@@ -14,7 +13,6 @@ func (g *Generator) Unmarshaler(typeName string) (code meta.Code) {
 	if typ == nil {
 		return code.Errorf("Type %s not found", typeName)
 	}
-	receiverName := strings.ToLower(typeName[:1])
 	return g.Code(`
 		func (%[1]s *%[2]s) %[3]s(node njson.Node) error {
 			typ := node.Type()
@@ -34,7 +32,7 @@ func (g *Generator) Unmarshaler(typeName string) (code meta.Code) {
 			}
 			return nil
 		}
-	`, receiverName, typ, g.UnmarshalMethod(), g.TypeUnmarshaler(typ)).Import(njsonPkg)
+	`, receiverName(typeName), typ, g.UnmarshalMethod(), g.TypeUnmarshaler(typ)).Import(njsonPkg)
 }
 
 // WriteUnmarshaler writes an unmarshaler method for a type in the generator's buffer.
-- 
2.43.0


From 1e5844601332007844b1194aa5696051630e2041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:00 +0000
Subject: [PATCH 67/92] fix: report types that contain themselves without a
 struct in between instead of overflowing the stack

---
 internal/generator/append.go    |  6 ++++++
 internal/generator/generator.go | 25 +++++++++++++++++++++++--
 internal/generator/unmarshal.go | 22 ++++++++++++++++++++--
 3 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 483476c..d32cf36 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -195,6 +195,12 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 		`).Import(strjsonPkg)
 
 	}
+	if isContainer(typ) {
+		if !g.enterContainer(typ) {
+			return c.Error(typeError{typ})
+		}
+		defer g.leave()
+	}
 	switch t := typ.Underlying().(type) {
 	case *types.Pointer:
 		return g.Code(`
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a05d21a..7c5ce07 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -36,7 +36,7 @@ type Generator struct {
 	test    bool
 	buffer  bytes.Buffer
 	imports map[string]*types.Package
-	stack   []types.Type // named struct types to generate inline code for
+	stack   []types.Type // types inline code is being generated for
 }
 
 // enter adds a named struct type to the stack.
@@ -51,7 +51,28 @@ func (g *Generator) enter(typ types.Type) bool {
 	return true
 }
 
-// leave removes the last type added by enter.
+// isContainer checks if inline code for the elements of a type is nested in the code for the type.
+func isContainer(typ types.Type) bool {
+	switch typ.Underlying().(type) {
+	case *types.Map, *types.Slice, *types.Pointer:
+		return true
+	}
+	return false
+}
+
+// enterContainer adds a map, slice or pointer type to the stack.
+// It returns false if the type contains itself with no struct in between, so there is no method to call.
+func (g *Generator) enterContainer(typ types.Type) bool {
+	for i := len(g.stack) - 1; i >= 0 && isContainer(g.stack[i]); i-- {
+		if types.Identical(g.stack[i], typ) {
+			return false
+		}
+	}
+	g.stack = append(g.stack, typ)
+	return true
+}
+
+// leave removes the last type added by enter or enterContainer.
 func (g *Generator) leave() {
 	g.stack = g.stack[:len(g.stack)-1]
 }
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 144c909..5d0a628 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -85,6 +85,13 @@ func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 		return g.TextUnmarshaler(t)
 	}
 
+	if isContainer(t) {
+		if !g.enterContainer(t) {
+			return code.Error(typeError{t})
+		}
+		defer g.leave()
+	}
+
 	switch typ := t.Underlying().(type) {
 	case *types.Map:
 		return g.MapUnmarshaler(t, typ)
@@ -376,16 +383,27 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 
 // CanUnmarshal returns if can be unmarshaled
 func CanUnmarshal(t types.Type) bool {
+	return canUnmarshal(t, nil)
+}
+
+// canUnmarshal checks if a type nested in containers of other types can be unmarshaled
+func canUnmarshal(t types.Type, outer []types.Type) bool {
 	if t == nil {
 		return false
 	}
+	for _, o := range outer {
+		if types.Identical(o, t) {
+			return false
+		}
+	}
+	outer = append(outer, t)
 	switch typ := t.Underlying().(type) {
 	case *types.Map, *types.Struct:
 		return true
 	case *types.Slice:
-		return CanUnmarshal(typ.Elem())
+		return canUnmarshal(typ.Elem(), outer)
 	case *types.Pointer:
-		return CanUnmarshal(typ.Elem())
+		return canUnmarshal(typ.Elem(), outer)
 	case *types.Basic:
 		switch typ.Kind() {
 		case types.Bool,
-- 
2.43.0


From 31af19ae28a1a337f65026596de390742735121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:48 +0000
Subject: [PATCH 68/92] fix: import packages that have the same name with
 different names

---
 internal/generator/generator.go | 43 +++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 7c5ce07..0f3ddad 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -36,7 +36,8 @@ type Generator struct {
 	test    bool
 	buffer  bytes.Buffer
 	imports map[string]*types.Package
-	stack   []types.Type // types inline code is being generated for
+	names   map[string]string // names of imported packages by path
+	stack   []types.Type      // types inline code is being generated for
 }
 
 // enter adds a named struct type to the stack.
@@ -104,11 +105,38 @@ func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
 			return ""
 		}
 		imports = append(imports, pkg)
-		return pkg.Name()
+		return g.importName(pkg)
 	}, format, args...)
 	return c.Import(imports...)
 }
 
+// importName returns the name to import a package with.
+// It is the name of the package unless another package or a declaration has the same name.
+func (g *Generator) importName(pkg *types.Package) string {
+	if name, ok := g.names[pkg.Path()]; ok {
+		return name
+	}
+	used := make(map[string]bool, len(g.names)+len(fixedImports))
+	for _, p := range fixedImports {
+		if p.Path() == pkg.Path() {
+			return p.Name()
+		}
+		used[p.Name()] = true
+	}
+	for _, name := range g.names {
+		used[name] = true
+	}
+	name := pkg.Name()
+	for i := 2; used[name]; i++ {
+		name = fmt.Sprintf("%s%d", pkg.Name(), i)
+	}
+	if g.names == nil {
+		g.names = make(map[string]string)
+	}
+	g.names[pkg.Path()] = name
+	return name
+}
+
 // AllStructs returns all structs from the package.
 func (g *Generator) AllStructs() (all []string) {
 	types := g.Package.DefinedTypes(meta.IsStruct)
@@ -215,6 +243,7 @@ func (g *Generator) Filename() (name string) {
 func (g *Generator) Reset() {
 	g.buffer.Reset()
 	g.imports = nil
+	g.names = nil
 }
 
 // Import adds packages to import in the generated file
@@ -290,6 +319,10 @@ var (
 
 	strconvPkg = meta.MustImport("strconv")
 	mathPkg    = meta.MustImport("math")
+	timePkg    = types.NewPackage("time", "time")
+
+	// packages used with their own name in the generated code
+	fixedImports = []*types.Package{njsonPkg, strjsonPkg, numjsonPkg, jsonPkg, strconvPkg, mathPkg, timePkg}
 )
 
 const (
@@ -315,11 +348,11 @@ func (g *Generator) Header() string {
 	}
 	sort.Strings(paths)
 	for _, path := range paths {
-		pkg := g.imports[path]
-		if filepath.Base(path) == pkg.Name() {
+		name := g.importName(g.imports[path])
+		if filepath.Base(path) == name {
 			h = append(h, fmt.Sprintf("import %q", path))
 		} else {
-			h = append(h, fmt.Sprintf("import %s %q", pkg.Name(), path))
+			h = append(h, fmt.Sprintf("import %s %q", name, path))
 		}
 	}
 	return strings.Join(h, "\n")
-- 
2.43.0


From 13357bdffc2ff267703882787d45de329d609ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:48 +0000
Subject: [PATCH 69/92] fix: import packages whose path is the name of the
 generated package

---
 internal/generator/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 0f3ddad..867d5cd 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -101,7 +101,7 @@ func (e typeError) Error() string {
 func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
 	var imports []interface{}
 	c = c.QPrintf(func(pkg *types.Package) string {
-		if pkg.Path() == g.Path() {
+		if g.Qualifier()(pkg) == "" {
 			return ""
 		}
 		imports = append(imports, pkg)
@@ -255,7 +255,7 @@ func (g *Generator) Import(imports ...*types.Package) {
 		g.imports = make(map[string]*types.Package, len(imports))
 	}
 	for _, pkg := range imports {
-		if pkg.Path() != g.Path() {
+		if g.Qualifier()(pkg) != "" {
 			g.imports[pkg.Path()] = pkg
 		}
 	}
-- 
2.43.0


From 2f919e8443c5ebce4ddd75f5444e46dcabbc2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:15 +0000
Subject: [PATCH 70/92] fix: skip type aliases when listing the struct types of
 a package

---
 internal/generator/generator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 867d5cd..a9d8e75 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -140,8 +140,14 @@ func (g *Generator) importName(pkg *types.Package) string {
 // AllStructs returns all structs from the package.
 func (g *Generator) AllStructs() (all []string) {
 	types := g.Package.DefinedTypes(meta.IsStruct)
+	defined := g.NamedTypes()
 	for _, typ := range types {
-		all = append(all, g.TypeString(typ))
+		name := g.TypeString(typ)
+		// Aliases have no methods of their own
+		if _, ok := defined[name]; ok {
+			delete(defined, name)
+			all = append(all, name)
+		}
 	}
 	// Files of a package are parsed in random order
 	sort.Strings(all)
-- 
2.43.0


From 6649f8f630ce65a80a3f192a8f44b6ba2bce877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:46 +0000
Subject: [PATCH 71/92] fix: select embedded fields of alias types by the name
 of the alias

---
 internal/generator/append.go    | 6 +++---
 internal/generator/generator.go | 8 ++++++++
 internal/generator/options.go   | 2 +-
 internal/generator/unmarshal.go | 6 +++---
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index d32cf36..bc02fbf 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -97,7 +97,7 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 	cond := []string{}
 	for i, p := range path {
 		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
-			cond = append(cond, fmt.Sprintf("v%s != nil", path[:i+1]))
+			cond = append(cond, fmt.Sprintf("v%s != nil", pathString(path[:i+1])))
 		}
 	}
 
@@ -106,13 +106,13 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 		if %s {
 			v := v%s
 			%s
-		}`, strings.Join(cond, " && "), path, code)
+		}`, strings.Join(cond, " && "), pathString(path), code)
 	}
 	return g.Code(`
 	{
 		v := v%s
 		%s
-	}`, path, code)
+	}`, pathString(path), code)
 }
 
 // StructAppender returns the AppendJSON block code for a struct
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a9d8e75..efb1f03 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -154,6 +154,14 @@ func (g *Generator) AllStructs() (all []string) {
 	return
 }
 
+// pathString returns the selectors for a path.
+func pathString(path meta.FieldPath) (s string) {
+	for i := range path {
+		s += "." + path[i].Var.Name()
+	}
+	return
+}
+
 // sortFields returns the fields of a struct in the order they are declared.
 // If fields have the same JSON name, only the least nested is returned.
 func (g *Generator) sortFields(fields meta.Fields) (sorted []meta.Field) {
diff --git a/internal/generator/options.go b/internal/generator/options.go
index 2596927..cdce513 100644
--- a/internal/generator/options.go
+++ b/internal/generator/options.go
@@ -110,7 +110,7 @@ func (o *options) parseField(field *types.Var, tag string) (name string, t meta.
 	if ok = o != nil && field != nil; !ok {
 		return
 	}
-	name = meta.FieldName(field)
+	name = field.Name()
 	if ok = o.MatchField(name); !ok {
 		return
 	}
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 5d0a628..58e940e 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -211,8 +211,8 @@ func (g *Generator) EnsurePath(path meta.FieldPath) (code meta.Code) {
 			if t == nil {
 				return
 			}
-			if p, ok := t.(*types.Pointer); ok {
-				r := g.Code("r%s", path[:i+1])
+			if p, ok := t.Underlying().(*types.Pointer); ok {
+				r := g.Code("r%s", pathString(path[:i+1]))
 				code = g.Code("%[1]s\nif %[2]s == nil { %[2]s = new(%[3]s) }\n", code, r, p.Elem())
 			}
 		}
@@ -360,7 +360,7 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 						r := &r%s
 						%s
 					}
-					`, code, fmt.Sprintf("`%s`", name), g.EnsurePath(field.Path), field.Path, cf)
+					`, code, fmt.Sprintf("`%s`", name), g.EnsurePath(field.Path), pathString(field.Path), cf)
 		if code.Err() != nil {
 			return
 		}
-- 
2.43.0


From 41988748494bab79e90b217bad2b8fbfce8cb244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:51 +0000
Subject: [PATCH 72/92] fix: leave out fields of other packages' structs that
 are not accessible

---
 internal/generator/append.go    |  6 +++---
 internal/generator/generator.go | 29 ++++++++++++++++++++++++++---
 internal/generator/unmarshal.go |  4 ++--
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index bc02fbf..d445bf7 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -97,7 +97,7 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 	cond := []string{}
 	for i, p := range path {
 		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
-			cond = append(cond, fmt.Sprintf("v%s != nil", pathString(path[:i+1])))
+			cond = append(cond, fmt.Sprintf("v%s != nil", g.pathString(path[:i+1])))
 		}
 	}
 
@@ -106,13 +106,13 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 		if %s {
 			v := v%s
 			%s
-		}`, strings.Join(cond, " && "), pathString(path), code)
+		}`, strings.Join(cond, " && "), g.pathString(path), code)
 	}
 	return g.Code(`
 	{
 		v := v%s
 		%s
-	}`, pathString(path), code)
+	}`, g.pathString(path), code)
 }
 
 // StructAppender returns the AppendJSON block code for a struct
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index efb1f03..5ca99ca 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -155,19 +155,42 @@ func (g *Generator) AllStructs() (all []string) {
 }
 
 // pathString returns the selectors for a path.
-func pathString(path meta.FieldPath) (s string) {
+// Fields promoted by an embedded field that is not accessible are selected directly.
+func (g *Generator) pathString(path meta.FieldPath) (s string) {
 	for i := range path {
-		s += "." + path[i].Var.Name()
+		if v := path[i].Var; g.isAccessible(v) {
+			s += "." + v.Name()
+		}
 	}
 	return
 }
 
+// isAccessible checks if the package can select a field.
+func (g *Generator) isAccessible(v *types.Var) bool {
+	return v.Exported() || g.Qualifier()(v.Pkg()) == ""
+}
+
+// isPathAccessible checks if the package can select all fields in a path that need to be selected.
+func (g *Generator) isPathAccessible(path meta.FieldPath) bool {
+	for i := range path {
+		v := path[i].Var
+		_, isPointer := v.Type().Underlying().(*types.Pointer)
+		if (isPointer || i == len(path)-1) && !g.isAccessible(v) {
+			return false
+		}
+	}
+	return true
+}
+
 // sortFields returns the fields of a struct in the order they are declared.
 // If fields have the same JSON name, only the least nested is returned.
 func (g *Generator) sortFields(fields meta.Fields) (sorted []meta.Field) {
 	for name := range fields {
 		for _, field := range fields[name] {
-			sorted = append(sorted, field.WithTag(g.TagKey()))
+			field = field.WithTag(g.TagKey())
+			if g.isPathAccessible(field.Path) {
+				sorted = append(sorted, field)
+			}
 		}
 	}
 	sort.Slice(sorted, func(i, j int) bool {
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 58e940e..29a8f26 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -212,7 +212,7 @@ func (g *Generator) EnsurePath(path meta.FieldPath) (code meta.Code) {
 				return
 			}
 			if p, ok := t.Underlying().(*types.Pointer); ok {
-				r := g.Code("r%s", pathString(path[:i+1]))
+				r := g.Code("r%s", g.pathString(path[:i+1]))
 				code = g.Code("%[1]s\nif %[2]s == nil { %[2]s = new(%[3]s) }\n", code, r, p.Elem())
 			}
 		}
@@ -360,7 +360,7 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 						r := &r%s
 						%s
 					}
-					`, code, fmt.Sprintf("`%s`", name), g.EnsurePath(field.Path), pathString(field.Path), cf)
+					`, code, fmt.Sprintf("`%s`", name), g.EnsurePath(field.Path), g.pathString(field.Path), cf)
 		if code.Err() != nil {
 			return
 		}
-- 
2.43.0


From 9b988c3bf0e4bf2974f7bcac3b92923550366b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:16 +0000
Subject: [PATCH 73/92] fix: rename imports and variables of generated code
 that hide declarations of the package

---
 internal/generator/generator.go | 73 ++++++++++++++++++++++++++++++---
 1 file changed, 68 insertions(+), 5 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 5ca99ca..38aa11f 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -97,12 +97,16 @@ func (e typeError) Error() string {
 	return fmt.Sprintf("Unsupported type %s %#v", e.typ, e.typ)
 }
 
+// selfName qualifies the types of the generated package until its code is written.
+// It tells types from variables of the generated code that have the same name.
+const selfName = "__self__"
+
 // Code prints code using the name of a package to qualify the types of other packages.
 func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
 	var imports []interface{}
 	c = c.QPrintf(func(pkg *types.Package) string {
 		if g.Qualifier()(pkg) == "" {
-			return ""
+			return selfName
 		}
 		imports = append(imports, pkg)
 		return g.importName(pkg)
@@ -304,10 +308,59 @@ func (g *Generator) DumpTo(w io.Writer) error {
 	if _, err := w.Write([]byte(g.Header())); err != nil {
 		return err
 	}
-	if _, err := g.buffer.WriteTo(w); err != nil {
-		return err
+	code := bytes.Replace(g.buffer.Bytes(), []byte(selfName+"."), nil, -1)
+	g.buffer.Reset()
+	_, err := w.Write(code)
+	return err
+}
+
+// renameConflicts renames the imports and the variables of a generated file
+// that have the same name as a declaration of the package.
+func (g *Generator) renameConflicts(f *ast.File) {
+	var scope *types.Scope
+	for _, typ := range g.NamedTypes() {
+		scope = typ.Obj().Pkg().Scope()
+		break
 	}
-	return nil
+	if scope == nil {
+		return
+	}
+	rename := func(name string) string {
+		for scope.Lookup(name) != nil {
+			name += "_"
+		}
+		return name
+	}
+	for _, spec := range f.Imports {
+		name := filepath.Base(strings.Trim(spec.Path.Value, `"`))
+		if spec.Name != nil {
+			name = spec.Name.Name
+		}
+		if scope.Lookup(name) != nil {
+			spec.Name = ast.NewIdent(rename(name))
+		}
+	}
+	fields := make(map[*ast.Ident]bool)
+	ast.Inspect(f, func(n ast.Node) bool {
+		switch n := n.(type) {
+		case *ast.StructType:
+			for _, field := range n.Fields.List {
+				for _, name := range field.Names {
+					fields[name] = true
+				}
+			}
+		case *ast.SelectorExpr:
+			if x, ok := n.X.(*ast.Ident); ok && x.Obj == nil {
+				// Selects from an import
+				x.Name = rename(x.Name)
+			}
+		case *ast.Ident:
+			if n.Obj != nil && n.Obj.Kind == ast.Var && !fields[n] {
+				n.Name = rename(n.Name)
+			}
+		}
+		return true
+	})
 }
 
 // PrintTo writes the generated file after checking and formatting.
@@ -321,8 +374,18 @@ func (g *Generator) PrintTo(w io.Writer) error {
 	if err != nil {
 		return err
 	}
+	g.renameConflicts(astFile)
 	ast.SortImports(fset, astFile)
-	return format.Node(w, fset, astFile)
+	buf.Reset()
+	if err := format.Node(buf, fset, astFile); err != nil {
+		return err
+	}
+	code, err := format.Source(bytes.Replace(buf.Bytes(), []byte(selfName+"."), nil, -1))
+	if err != nil {
+		return err
+	}
+	_, err = w.Write(code)
+	return err
 }
 
 const (
-- 
2.43.0


From feac98a1c722babaaa5734388e7c1da5468c404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:17 +0000
Subject: [PATCH 74/92] fix: import packages named as variables of the
 generated code with another name

---
 internal/generator/generator.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 38aa11f..f203422 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -114,13 +114,19 @@ func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
 	return c.Import(imports...)
 }
 
+// localNames are the names of variables in the generated code.
+const localNames = "node typ values size err ok out more data"
+
 // importName returns the name to import a package with.
-// It is the name of the package unless another package or a declaration has the same name.
+// It is the name of the package unless another package or a variable has the same name.
 func (g *Generator) importName(pkg *types.Package) string {
 	if name, ok := g.names[pkg.Path()]; ok {
 		return name
 	}
-	used := make(map[string]bool, len(g.names)+len(fixedImports))
+	used := make(map[string]bool)
+	for _, name := range strings.Fields(localNames) {
+		used[name] = true
+	}
 	for _, p := range fixedImports {
 		if p.Path() == pkg.Path() {
 			return p.Name()
@@ -131,7 +137,7 @@ func (g *Generator) importName(pkg *types.Package) string {
 		used[name] = true
 	}
 	name := pkg.Name()
-	for i := 2; used[name]; i++ {
+	for i := 2; used[name] || len(name) == 1; i++ {
 		name = fmt.Sprintf("%s%d", pkg.Name(), i)
 	}
 	if g.names == nil {
-- 
2.43.0


From 9eb546dfeac8a201ad79f35976fd34d158902639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:14 +0000
Subject: [PATCH 75/92] fix: do not call methods of unnamed struct types

---
 internal/generator/generator.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index f203422..ef2b902 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -43,9 +43,11 @@ type Generator struct {
 // enter adds a named struct type to the stack.
 // It returns false if the type is recursive so a method call is needed instead of inline code.
 func (g *Generator) enter(typ types.Type) bool {
-	for _, t := range g.stack {
-		if types.Identical(t, typ) {
-			return false
+	if _, isUnnamed := typ.(*types.Struct); !isUnnamed {
+		for _, t := range g.stack {
+			if types.Identical(t, typ) {
+				return false
+			}
 		}
 	}
 	g.stack = append(g.stack, typ)
-- 
2.43.0


From 3e5e85fd8942bc523c71de9bd8965c2b307943df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:06 +0000
Subject: [PATCH 76/92] fix: report recursive struct types of other packages
 instead of calling methods they do not have

---
 internal/generator/append.go    | 3 +++
 internal/generator/generator.go | 6 ++++++
 internal/generator/unmarshal.go | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index d445bf7..1770e97 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -244,6 +244,9 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 		`, g.TypeAppender(t.Elem(), params))
 	case *types.Struct:
 		if !g.enter(typ) {
+			if g.isForeign(typ) {
+				return c.Error(typeError{typ})
+			}
 			return g.Code(`
 			var err error
 			if out, err = v.%s(out); err != nil {
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index ef2b902..d381819 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -54,6 +54,12 @@ func (g *Generator) enter(typ types.Type) bool {
 	return true
 }
 
+// isForeign checks if a type is defined in another package so no methods can be generated for it.
+func (g *Generator) isForeign(typ types.Type) bool {
+	named, ok := typ.(*types.Named)
+	return ok && g.Qualifier()(named.Obj().Pkg()) != ""
+}
+
 // isContainer checks if inline code for the elements of a type is nested in the code for the type.
 func isContainer(typ types.Type) bool {
 	switch typ.Underlying().(type) {
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 29a8f26..3155767 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -97,6 +97,9 @@ func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 		return g.MapUnmarshaler(t, typ)
 	case *types.Struct:
 		if !g.enter(t) {
+			if g.isForeign(t) {
+				return code.Error(typeError{t})
+			}
 			return g.Code(`
 			if err := r.%s(n); err != nil {
 				return err
-- 
2.43.0


From f1fbbce725b040450774149faf193ee1fa2aef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:12 +0000
Subject: [PATCH 77/92] fix: report struct types that embed themselves instead
 of overflowing the stack

---
 internal/generator/append.go    |  3 +++
 internal/generator/generator.go | 22 ++++++++++++++++++++++
 internal/generator/unmarshal.go |  3 +++
 3 files changed, 28 insertions(+)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 1770e97..6c17a5e 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -255,6 +255,9 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			`, g.AppendMethod())
 		}
 		defer g.leave()
+		if embedsItself(t) {
+			return c.Error(typeError{typ})
+		}
 		fields := meta.NewFields(t, true)
 		return g.StructAppender(fields)
 	case *types.Basic:
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index d381819..49d7aab 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -54,6 +54,28 @@ func (g *Generator) enter(typ types.Type) bool {
 	return true
 }
 
+// embedsItself checks if a struct is embedded in a struct nested in it.
+func embedsItself(s *types.Struct, outer ...*types.Struct) bool {
+	for _, o := range outer {
+		if o == s {
+			return true
+		}
+	}
+	outer = append(outer, s)
+	for i := 0; i < s.NumFields(); i++ {
+		if field := s.Field(i); field.Anonymous() {
+			t := field.Type().Underlying()
+			if p, ok := t.(*types.Pointer); ok {
+				t = p.Elem().Underlying()
+			}
+			if t, ok := t.(*types.Struct); ok && embedsItself(t, outer...) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // isForeign checks if a type is defined in another package so no methods can be generated for it.
 func (g *Generator) isForeign(typ types.Type) bool {
 	named, ok := typ.(*types.Named)
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 3155767..c2bea70 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -335,6 +335,9 @@ func (g *Generator) RawStringUnmarshaler(t types.Type) meta.Code {
 
 // StructUnmarshaler generates the code block to unmarshal a struct.
 func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
+	if embedsItself(t) {
+		return code.Error(typeError{t})
+	}
 	fields := meta.NewFields(t, true)
 	for _, field := range g.sortFields(fields) {
 		if field.Name() == "_" {
-- 
2.43.0


From ad13390153b5b2b1a8afefa80d938a6d551e64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:54 +0000
Subject: [PATCH 78/92] fix: leave out files excluded by build constraints

---
 internal/generator/generator.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 49d7aab..eab123b 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -10,6 +10,7 @@ import (
 	"bytes"
 	"fmt"
 	"go/ast"
+	"go/build"
 	"go/format"
 	"go/parser"
 	"go/token"
@@ -280,9 +281,11 @@ func NewFromFile(filename string, src interface{}, options ...Option) (*Generato
 
 // NewFromDir creates a new Generator for a package named targetPkg and parses the specified path.
 func NewFromDir(path, name string, options ...Option) (*Generator, error) {
-	var filter func(os.FileInfo) bool
-	if !strings.HasSuffix(name, "_test") {
-		filter = meta.IgnoreTestFiles
+	isTest := strings.HasSuffix(name, "_test")
+	filter := func(f os.FileInfo) bool {
+		// Files excluded by build constraints can have other declarations of the same types
+		match, err := build.Default.MatchFile(path, f.Name())
+		return (match || err != nil) && (isTest || meta.IgnoreTestFiles(f))
 	}
 	p := meta.NewParser(parser.ParseComments | parser.DeclarationErrors)
 	if err := p.ParseDir(path, filter); err != nil {
-- 
2.43.0


From fba1aaaf9686534bf170081f20c574200e4cca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:09 +0000
Subject: [PATCH 79/92] fix: call the methods of what a named pointer type
 points to

---
 internal/generator/unmarshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index c2bea70..3244ff4 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -161,11 +161,11 @@ switch {
 case n.Type() == njson.TypeNull:
 	*r = nil
 case *r == nil:
-	*r = new(%s)
+	*r = new(%[1]s)
 	fallthrough
 default:
-	r := *r
-	%s
+	r := (*%[1]s)(*r)
+	%[2]s
 }
 `, t.Elem(), g.TypeUnmarshaler(t.Elem()))
 }
-- 
2.43.0


From f3a92efa1109e369e953697e6cf25237f97e2da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:10 +0000
Subject: [PATCH 80/92] fix: make tables of sets of one byte and of sets that
 begin or end with a quote

The set was quoted only if it had two bytes or more and neither end was a
quote, and otherwise read as the empty set: the error was dropped.
---
 internal/bytemaper/bytemaper.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/bytemaper/bytemaper.go b/internal/bytemaper/bytemaper.go
index 2a33dc9..45151ac 100644
--- a/internal/bytemaper/bytemaper.go
+++ b/internal/bytemaper/bytemaper.go
@@ -127,10 +127,15 @@ func main() {
 		name := arg
 		if i := strings.IndexByte(arg, ':'); i != -1 {
 			name = arg[:i]
-			if arg = arg[i+1:]; len(arg) >= 2 && arg[0] != '"' && arg[len(arg)-1] != '"' {
-				arg = "\"" + arg + "\""
+			chars := arg[i+1:]
+			if len(chars) < 2 || chars[0] != '"' || chars[len(chars)-1] != '"' {
+				chars = "\"" + chars + "\""
 			}
-			arg, _ = strconv.Unquote(arg)
+			var err error
+			if chars, err = strconv.Unquote(chars); err != nil {
+				log.Fatalf("Invalid arg %q: %s\n", arg, err)
+			}
+			arg = chars
 		} else {
 			arg = ""
 		}
-- 
2.43.0


From ab7727f8e89e83229c8ccf6959f3b143eeb114fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:39 +0000
Subject: [PATCH 81/92] fix: take only the letters a to f for hexadecimal
 digits

The table of the tool, and the one made with it, had values 16 to 35 for the
letters behind them.
---
 internal/bytemaper/bytemaper.go | 4 ++--
 strjson/bytemaps.go             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/bytemaper/bytemaper.go b/internal/bytemaper/bytemaper.go
index 45151ac..2a231fc 100644
--- a/internal/bytemaper/bytemaper.go
+++ b/internal/bytemaper/bytemaper.go
@@ -103,9 +103,9 @@ func fromHex(c byte) byte {
 	switch {
 	case '0' <= c && c <= '9':
 		return c - '0'
-	case 'a' <= c && c <= 'z':
+	case 'a' <= c && c <= 'f':
 		return 10 + c - 'a'
-	case 'A' <= c && c <= 'Z':
+	case 'A' <= c && c <= 'F':
 		return 10 + c - 'A'
 	default:
 		return 0xff
diff --git a/strjson/bytemaps.go b/strjson/bytemaps.go
index d5c9243..24319c9 100644
--- a/strjson/bytemaps.go
+++ b/strjson/bytemaps.go
@@ -1,7 +1,7 @@
 package strjson
 
 const (
-	bytemapFromHex = "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x01\x02\x03\x04\x05\x06\a\b\t\xff\xff\xff\xff\xff\xff\xff\n\v\f\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f !\"#\xff\xff\xff\xff\xff\xff\n\v\f\r\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f !\"#\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"
+	bytemapFromHex = "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x01\x02\x03\x04\x05\x06\a\b\t\xff\xff\xff\xff\xff\xff\xff\n\v\f\r\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\n\v\f\r\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"
 	bytemapToHex   = "0123456789abcdef\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"
 	bytemapToJSON  = "\x00\x00\x00\x00\x00\x00\x00\x00btn\x00fr\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x80\x80\\\x80\x80\x80\x01\x80\x80\x80\x80\x80\x80\x80\x80\\\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01\x80\x01\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\\\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"
 )
-- 
2.43.0


From 36c0661d3f3f6e4e9f8a7625e80e2a2a1eacbb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:40 +0000
Subject: [PATCH 82/92] fix: leave the earlier byte tables in place when the
 arguments are wrong

The file was emptied before the arguments were looked at.
---
 internal/bytemaper/bytemaper.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/bytemaper/bytemaper.go b/internal/bytemaper/bytemaper.go
index 2a231fc..22dff11 100644
--- a/internal/bytemaper/bytemaper.go
+++ b/internal/bytemaper/bytemaper.go
@@ -113,14 +113,6 @@ func fromHex(c byte) byte {
 }
 func main() {
 	flag.Parse()
-	w := os.Stdout
-	if *fileName != "" {
-		f, err := os.Create(*fileName)
-		if err != nil {
-			log.Fatalln("Failed to open file for writing", err)
-		}
-		w = f
-	}
 	masks := map[string]string{}
 	var tr func(b byte) byte
 	for _, arg := range flag.Args() {
@@ -197,6 +189,14 @@ func main() {
 		}
 		masks[name] = string(mask)
 	}
+	w := os.Stdout
+	if *fileName != "" {
+		f, err := os.Create(*fileName)
+		if err != nil {
+			log.Fatalln("Failed to open file for writing", err)
+		}
+		w = f
+	}
 	if err := tpl.Execute(w, map[string]interface{}{
 		"PkgName": *pkgName,
 		"Maps":    masks,
-- 
2.43.0


From 9cd5620c6ebe456206098a605aa9d22f650b124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:49 +0000
Subject: [PATCH 83/92] fix: keep the values of interfaces with methods when
 empty values are omitted

---
 unjson/omit.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index 0248771..992db97 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -188,10 +188,7 @@ func newOmiter(typ reflect.Type, methodName string) omiter {
 	case reflect.Array:
 		return newArrayOmiter(typ, methodName)
 	case reflect.Interface:
-		if typ.NumMethod() == 0 {
-			return omitNil{}
-		}
-		return omitAlways{}
+		return omitNil{}
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return omitInt{}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-- 
2.43.0


From 7b4fb60f34c2dc1ef5ce1e9e834a7671fea5c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:50 +0000
Subject: [PATCH 84/92] fix: call the omission methods of interfaces

---
 unjson/omit.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/unjson/omit.go b/unjson/omit.go
index 992db97..01410d9 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -82,8 +82,24 @@ func (m omitMethod) omit(v reflect.Value) bool {
 	return false
 }
 
+type ifaceOmiter int
+
+func (m ifaceOmiter) omit(v reflect.Value) bool {
+	if v.IsNil() || v.Elem().Kind() == reflect.Ptr && v.Elem().IsNil() {
+		return true
+	}
+	return omitMethod(m).omit(v)
+}
+
 func customOmiter(typ reflect.Type, methodName string) omiter {
 	if method, ok := typ.MethodByName(methodName); ok {
+		if typ.Kind() == reflect.Interface {
+			// The method of an interface has no receiver
+			if f := method.Type; f.NumIn() == 0 && f.NumOut() == 1 && f.Out(0).Kind() == reflect.Bool {
+				return ifaceOmiter(method.Index)
+			}
+			return nil
+		}
 		f := method.Func.Type()
 		if f.NumIn() == 1 && f.NumOut() == 1 && f.Out(0).Kind() == reflect.Bool {
 			return omitMethod(method.Index)
-- 
2.43.0


From 9789969d49e03ea41a0f667e357e37670110fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:51 +0000
Subject: [PATCH 85/92] fix: omit only empty values of the kinds that are
 encoded by hooks

---
 unjson/omit.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index 01410d9..4e66dfe 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -214,6 +214,7 @@ func newOmiter(typ reflect.Type, methodName string) omiter {
 	case reflect.Bool:
 		return omitBool{}
 	default:
-		return omitAlways{}
+		// Values of other kinds are encoded by their hooks
+		return omitFunc(reflect.Value.IsZero)
 	}
 }
-- 
2.43.0


From fc6d2e2a54a456beb4c7036759c3d778fb347373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:52 +0000
Subject: [PATCH 86/92] fix: encode the nil keys of a map as empty strings

---
 unjson/encode.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 4569eb0..d357713 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -294,7 +294,12 @@ func (d *mapEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
 		if i > 0 {
 			out = append(out, delimValueSeparator)
 		}
-		out, err = d.keys.encode(out, key)
+		if k := key.Kind(); (k == reflect.Ptr || k == reflect.Interface) && key.IsNil() {
+			// A null is not a key
+			out = append(out, delimString, delimString)
+		} else {
+			out, err = d.keys.encode(out, key)
+		}
 		if err != nil {
 			return out, err
 		}
-- 
2.43.0


From 84b6a8d0bb28a25fdea4cad9aa8579cc6b5f281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:54 +0000
Subject: [PATCH 87/92] fix: decode null to a nil map

---
 unjson/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unjson/decode.go b/unjson/decode.go
index 3edaa1a..6d679e7 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -329,6 +329,7 @@ func newMapDecoder(typ reflect.Type, options *Options, codecs cache) (*mapDecode
 func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	switch n.Type() {
 	case njson.TypeNull:
+		v.Set(reflect.Zero(d.typ))
 		return
 	case njson.TypeObject:
 		val := reflect.New(d.typ.Elem()).Elem()
-- 
2.43.0


From bbe8aa381f0f1572989fa8a7afcec40283080091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:23 +0000
Subject: [PATCH 88/92] fix: call the omission methods of the pointer for
 values without an address

---
 unjson/omit.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index 4e66dfe..a0c87ac 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -121,7 +121,12 @@ type elemOmiter struct {
 }
 
 func (o *elemOmiter) omit(v reflect.Value) bool {
-	return v.CanAddr() && o.omiter.omit(v.Addr())
+	if !v.CanAddr() {
+		p := reflect.New(v.Type())
+		p.Elem().Set(v)
+		return o.omiter.omit(p)
+	}
+	return o.omiter.omit(v.Addr())
 }
 
 // newCustomOmiter creates an omiter func for a type.
-- 
2.43.0


From 19e29ccb7f3643fdba34fb866167c6875b1d8cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:01 +0000
Subject: [PATCH 89/92] fix: return an error instead of calling unmarshal hooks
 with nil pointers

---
 unjson/decode.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 6d679e7..6460215 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -72,7 +72,13 @@ func hookTarget(v reflect.Value) interface{} {
 	return v.Interface()
 }
 
-// decodeNil decodes a node to a nil interface
+// isNil checks if x is a nil pointer that a hook should not be called with
+func isNil(x interface{}) bool {
+	v := reflect.ValueOf(x)
+	return v.Kind() == reflect.Ptr && v.IsNil()
+}
+
+// decodeNil decodes a node to a nil interface or pointer
 func decodeNil(n njson.Node) error {
 	if n.Type() == njson.TypeNull {
 		return nil
@@ -84,6 +90,9 @@ func decodeNil(n njson.Node) error {
 type njsonDecoder struct{}
 
 func (njsonDecoder) Decode(x interface{}, n njson.Node) error {
+	if isNil(x) {
+		return decodeNil(n)
+	}
 	if x, ok := x.(njson.Unmarshaler); ok {
 		return x.UnmarshalNodeJSON(n)
 	}
@@ -101,7 +110,9 @@ func (njsonDecoder) decode(v reflect.Value, n njson.Node) error {
 type jsonDecoder struct{}
 
 func (jsonDecoder) Decode(x interface{}, n njson.Node) (err error) {
-
+	if isNil(x) {
+		return decodeNil(n)
+	}
 	if u, ok := x.(json.Unmarshaler); ok {
 		return n.WrapUnmarshalJSON(u)
 	}
@@ -550,6 +561,9 @@ func (textDecoder) decode(v reflect.Value, n njson.Node) error {
 }
 
 func (textDecoder) Decode(x interface{}, n njson.Node) error {
+	if isNil(x) {
+		return decodeNil(n)
+	}
 	if u, ok := x.(encoding.TextUnmarshaler); ok {
 		if n.Type() == njson.TypeNull {
 			return nil
-- 
2.43.0


From 59fd12e08f3c039157fdf53d6867404b7ffb3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:11 +0000
Subject: [PATCH 90/92] fix: keep the fields of embedded pointers to unexported
 structs

---
 unjson/codec.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index e501133..77027ba 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -98,7 +98,7 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 		field := typ.Field(i)
 		tag, hints, tagged := options.parseField(field)
 		// Check field is exported and settable or an embedded struct that may have such fields
-		if !v.Field(i).CanSet() && (tagged || !field.Anonymous || field.Type.Kind() != reflect.Struct) {
+		if !v.Field(i).CanSet() && (tagged || !field.Anonymous || structOf(field.Type) == nil) {
 			continue
 		}
 		if tag == "-" {
@@ -106,13 +106,11 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 		}
 		index = append(index[:depth], field.Index...)
 		if !tagged && field.Anonymous {
-			t := field.Type
-			if t.Kind() == reflect.Ptr && t.Elem().Kind() == reflect.Struct {
-				// Flag for fieldByIndex
-				index = append(index, -1)
-				t = t.Elem()
-			}
-			if t.Kind() == reflect.Struct {
+			if t := structOf(field.Type); t != nil {
+				if t != field.Type {
+					// Flag for fieldByIndex
+					index = append(index, -1)
+				}
 				// embedded struct
 				if isWithin(c.typ, index, t) {
 					// The fields of t are hidden by the less nested ones
@@ -190,6 +188,17 @@ func newStructCodec(typ reflect.Type, options *Options, codecs cache) (*structCo
 	return &c, nil
 }
 
+// structOf returns the struct type of a struct or a pointer to a struct
+func structOf(typ reflect.Type) reflect.Type {
+	if typ.Kind() == reflect.Ptr {
+		typ = typ.Elem()
+	}
+	if typ.Kind() == reflect.Struct {
+		return typ
+	}
+	return nil
+}
+
 func fieldByIndex(v reflect.Value, index []int) reflect.Value {
 	for _, i := range index {
 		if i == -1 {
@@ -230,6 +239,10 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 				for _, i := range fc.index[1:] {
 					if i == -1 {
 						if field.IsNil() {
+							if !field.CanSet() {
+								// Pointer to an unexported struct
+								return errValue
+							}
 							field.Set(reflect.New(field.Type().Elem()))
 						}
 						field = field.Elem()
-- 
2.43.0


From 14287affdb03c36d0a0d5eea1b4c4df927fa0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:34 +0000
Subject: [PATCH 91/92] fix: round 32 bit floats once when decoding

---
 unjson/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 6460215..f6f30c7 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -525,8 +525,8 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 		f := numjson.ParseFloat(raw)
 		if f == f {
 			if v.Kind() == reflect.Float32 {
-				// Round before checking for overflow
-				f = float64(float32(f))
+				// Round once, before checking for overflow
+				f, _ = strconv.ParseFloat(raw, 32)
 			}
 			if math.IsInf(f, 0) {
 				return n.TypeError(njson.TypeNumber)
-- 
2.43.0


From 9211a467f8d11dae9336939542ec60a7a18f7433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:49 +0000
Subject: [PATCH 92/92] fix: round 32 bit floats once in generated code

---
 internal/generator/unmarshal.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 3244ff4..bc126aa 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -196,7 +196,19 @@ func (g *Generator) BasicUnmarshaler(t types.Type, b *types.Basic) (code meta.Co
 		c = "if i, ok := n.ToInt(); ok && int64(%[1]s(i)) == i { *r = %[1]s(i) } else { return n.TypeError(njson.TypeNumber) }"
 	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
 		c = ("if u, ok := n.ToUint(); ok && uint64(%[1]s(u)) == u { *r = %[1]s(u) } else { return n.TypeError(njson.TypeNumber) }")
-	case types.Float32, types.Float64:
+	case types.Float32:
+		// Round once
+		c = `
+	if _, ok := n.ToFloat(); !ok {
+		return n.TypeError(njson.TypeNumber)
+	} else if f, err := strconv.ParseFloat(n.Raw(), 32); err != nil {
+		return n.TypeError(njson.TypeNumber)
+	} else {
+		*r = %[1]s(f)
+	}
+	`
+		return g.Code(c, t).Import(njsonPkg, strconvPkg)
+	case types.Float64:
 		c = "if f, ok := n.ToFloat(); ok && !math.IsInf(float64(%[1]s(f)), 0) { *r = %[1]s(f) } else { return n.TypeError(njson.TypeNumber) }"
 		return g.Code(c, t).Import(njsonPkg, mathPkg)
 	default:
-- 
2.43.0

