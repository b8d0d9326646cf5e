From ed6280d0ee49cf11ea652546ae8991d2e27414cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 01/98] fix: JSON decoding refuses trailing data

---
 enc/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enc/json.go b/enc/json.go
index 10c01fa..956f890 100644
--- a/enc/json.go
+++ b/enc/json.go
@@ -3,6 +3,7 @@ package enc
 import (
 	"bytes"
 	"encoding/json"
+	"io"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -82,5 +83,8 @@ func (this JSON) Decode(c ctx.C, data []byte) (Node, error) {
 	if err != nil {
 		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "%w", err)
 	}
+	if _, err := dec.Token(); err != io.EOF { // a single value is expected
+		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "unexpected data after JSON value")
+	}
 	return fromNative(obj), nil
 }
-- 
2.43.0


From 6f42fdfcc2bfff8372b36a7dd9a4f21933604491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:07 +0000
Subject: [PATCH 02/98] fix: the zero value of enc.Digits encodes as 0

---
 enc/numeric.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/enc/numeric.go b/enc/numeric.go
index 7e7476d..6cbf698 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -117,7 +117,12 @@ func (this Digits) native() any {
 	}
 	return this.String()
 }
-func (this Digits) MarshalJSON() ([]byte, error) { return []byte(this), nil }
+func (this Digits) MarshalJSON() ([]byte, error) {
+	if this == "" {
+		return []byte("0"), nil // zero value, as json.Number does
+	}
+	return []byte(this), nil
+}
 func (this Digits) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	return unmarshalNumericInto(this, c, handler, into)
 }
-- 
2.43.0


From 311ff93203d3805823958a8cfaf21db7832eda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:30 +0000
Subject: [PATCH 03/98] fix: marshalling a nil pointer gives null for every
 type

---
 enc/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index fa079a9..ed83f17 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -174,6 +174,9 @@ func Marshal(c ctx.C, in any) (Node, error) {
 
 func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	//log.Warnf(c, "OHA: %T %v", in, in)
+	if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer && v.IsNil() {
+		return Nil{}, nil // must be checked first, the methods might have value receivers
+	}
 	switch in := in.(type) {
 	case nil:
 		return Nil{}, nil
-- 
2.43.0


From 2ffe17d2086fe45312cf47d589c5276e2957252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:35 +0000
Subject: [PATCH 04/98] fix: marshalling enc.Pairs keeps the order

---
 enc/handler.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index ed83f17..d751def 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -190,6 +190,30 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 		return String(in.Error()), nil
 	case *ctx.Error:
 		return String(in.Error()), nil
+	case Pairs: // must not go thru JSON, or the order is lost
+		out := make(Pairs, 0, len(in))
+		for _, p := range in {
+			n, err := this.Marshal(c, p.Value)
+			if err != nil {
+				return nil, err
+			}
+			out = append(out, Pair{p.Name, p.JSON, n})
+		}
+		return out, nil
+	case Map: // same, it might contain Pairs
+		out := Map{}
+		for k, v := range in {
+			n, err := this.Marshal(c, v)
+			if err != nil {
+				return nil, err
+			}
+			out[k] = n
+		}
+		return out, nil
+	case *Pairs:
+		return this.Marshal(c, *in)
+	case *Map:
+		return this.Marshal(c, *in)
 	case json.Marshaler:
 		j, err := in.MarshalJSON()
 		if err != nil {
-- 
2.43.0


From 4afcff112e1e453ce5785c894d658c5d821d0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 05/98] fix: marshalling unsigned integers above the int64
 range

---
 enc/handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index d751def..1fc292a 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -3,7 +3,9 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
+	"strconv"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -239,6 +241,9 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return Integer(v.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if u := v.Uint(); u > math.MaxInt64 {
+			return Digits(strconv.FormatUint(u, 10)), nil // doesn't fit in enc.Integer
+		}
 		return Integer(v.Uint()), nil
 	case reflect.String:
 		return String(v.String()), nil
-- 
2.43.0


From 2228f52d51c6b662016ec744a398fa36bea4c156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:25 +0000
Subject: [PATCH 06/98] fix: marshalling unsupported kinds returns an error

---
 enc/handler.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 1fc292a..f4eaf29 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -230,8 +230,7 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	t := v.Type()
 	switch t.Kind() {
 	default:
-		log.Warnf(c, "possible wrong fallback for type %T", in)
-		return fromNative(in), nil
+		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
 	case reflect.Func:
 		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
 	case reflect.Bool:
-- 
2.43.0


From 22ea73706af0eb520085e8ea1b62fb29963929da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 07/98] fix: marshalling NaN and Inf returns an error

---
 enc/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index f4eaf29..4926ab2 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -236,6 +236,9 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	case reflect.Bool:
 		return Bool(v.Bool()), nil
 	case reflect.Float64, reflect.Float32:
+		if f := v.Float(); math.IsNaN(f) || math.IsInf(f, 0) {
+			return nil, ctx.NewErrorf(c, "can't marshal %v, not representable", f) // encoding would panic
+		}
 		return Float(v.Float()), nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return Integer(v.Int()), nil
-- 
2.43.0


From 42c30ecf58c9acdde887eebc5c7c700d2eae1f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 08/98] fix: omitempty follows encoding/json

---
 enc/handler.go | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 4926ab2..252e164 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -323,30 +323,26 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-		switch fn := fn.(type) {
-		case Nil:
-			if !tag.OmitEmpty {
-				out = append(out, Pair{tag.Name, tag.JSON, fn})
-			}
-		case String:
-			if !tag.OmitEmpty || fn != "" {
-				out = append(out, Pair{tag.Name, tag.JSON, fn})
-			}
-		case Integer:
-			if !tag.OmitEmpty || fn != 0 {
-				out = append(out, Pair{tag.Name, tag.JSON, fn})
-			}
-		case Float:
-			if !tag.OmitEmpty || fn != 0.0 {
-				out = append(out, Pair{tag.Name, tag.JSON, fn})
-			}
-		case Digits:
-			if !tag.OmitEmpty || fn != "" {
-				out = append(out, Pair{tag.Name, tag.JSON, fn})
-			}
-		default:
-			out = append(out, Pair{tag.Name, tag.JSON, fn})
+		if tag.OmitEmpty && isEmpty(fv, fn) {
+			continue
 		}
+		out = append(out, Pair{tag.Name, tag.JSON, fn})
 	}
 	return out, nil
 }
+
+// tells if the field must be omitted: same rules of encoding/json, plus anything which is marshalled as Nil
+func isEmpty(v reflect.Value, n Node) bool {
+	switch n.(type) {
+	case nil, Nil:
+		return true
+	}
+	switch v.Kind() {
+	case reflect.Slice, reflect.Map, reflect.Array, reflect.String:
+		return v.Len() == 0
+	case reflect.Struct:
+		return false
+	default:
+		return v.IsZero() // note: a non nil pointer or interface is never empty, even if it refers to a zero value
+	}
+}
-- 
2.43.0


From cad31db85c97eae1c7a8dcd496bea886e5d6da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 09/98] fix: numbers which do not fit are refused when
 unmarshalling

---
 enc/numeric.go | 74 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 65 insertions(+), 9 deletions(-)

diff --git a/enc/numeric.go b/enc/numeric.go
index 6cbf698..3309400 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -3,6 +3,7 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -29,8 +30,13 @@ type Integer int
 var _ Node = Integer(0)
 var _ Numeric = Integer(0)
 
-func (this Integer) Int64() (int64, error)        { return int64(this), nil }
-func (this Integer) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Integer) Int64() (int64, error) { return int64(this), nil }
+func (this Integer) Uint64() (uint64, error) {
+	if this < 0 {
+		return 0, fmt.Errorf("%v out of range for uint64", this)
+	}
+	return uint64(this), nil
+}
 func (this Integer) Float64() (float64, error)    { return float64(this), nil }
 func (this Integer) String() string               { return strconv.FormatInt(int64(this), 10) }
 func (this Integer) GoString() string             { return fmt.Sprintf("enc.Integer{%v}", int64(this)) }
@@ -48,8 +54,20 @@ type Float float64
 var _ Node = Float(0)
 var _ Numeric = Float(0)
 
-func (this Float) Int64() (int64, error)        { return int64(this), nil }
-func (this Float) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Float) Int64() (int64, error) {
+	f := math.Trunc(float64(this)) // be forgiving and let float unmarshal as int
+	if !(f >= -(1<<63) && f < 1<<63) {
+		return 0, fmt.Errorf("%v out of range for int64", this)
+	}
+	return int64(f), nil
+}
+func (this Float) Uint64() (uint64, error) {
+	f := math.Trunc(float64(this)) // be forgiving and let float unmarshal as int
+	if !(f >= 0 && f < 1<<64) {
+		return 0, fmt.Errorf("%v out of range for uint64", this)
+	}
+	return uint64(f), nil
+}
 func (this Float) Float64() (float64, error)    { return float64(this), nil }
 func (this Float) String() string               { return strconv.FormatFloat(float64(this), 'g', -1, 64) }
 func (this Float) GoString() string             { return fmt.Sprintf("enc.Float{%v}", float64(this)) }
@@ -73,14 +91,46 @@ func (this Digits) Int64() (int64, error) {
 }
 func (this Digits) Uint64() (uint64, error) {
 	s := trimDecimal(string(this)) // be forgiving and let float unmarshal as int
+	if s == "-0" {
+		s = "0"
+	}
 	i, err := strconv.ParseUint(s, 10, 64)
 	return i, err
 }
+
+// drop the decimals, after applying the exponent (if any)
 func trimDecimal(s string) string {
-	if strings.Contains(string(s), ".") {
-		return strings.Split(s, ".")[0]
+	at := strings.IndexAny(s, "eE")
+	if at < 0 {
+		s, _, _ = strings.Cut(s, ".")
+		return s
+	}
+	exp, err := strconv.Atoi(s[at+1:])
+	if err != nil {
+		return s
+	}
+	sign := ""
+	if strings.HasPrefix(s, "-") {
+		sign = "-"
+	}
+	i, f, _ := strings.Cut(s[len(sign):at], ".")
+	if strings.Trim(i+f, "0") == "" {
+		return "0"
 	}
-	return s
+	switch {
+	case exp > 400:
+		return s // way out of range
+	case exp >= 0:
+		if n := exp - len(f); n > 0 {
+			f += strings.Repeat("0", n)
+		}
+		i += f[:exp]
+	case len(i)+exp <= 0:
+		i = "0"
+	default:
+		i = i[:len(i)+exp]
+	}
+	return sign + i
 }
 func (this Digits) Float64() (float64, error) { return strconv.ParseFloat(string(this), 64) }
 func (this Digits) String() string            { return string(this) }
@@ -131,9 +181,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 	//log.Debugf(c, "OHA %#v => %#v", this, into)
 	switch into.Kind() {
 	case reflect.Float64, reflect.Float32:
-		f, err := this.Float64()
+		f, err := strconv.ParseFloat(this.String(), into.Type().Bits())
 		if err != nil {
-			return err
+			return ctx.NewErrorf(c, "can't unmarshal %s %T into %v: %w", handler.path, this, into.Type(), err)
 		}
 		into.SetFloat(f)
 	case reflect.Int,
@@ -145,6 +195,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowInt(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %T into %v: %d out of range", handler.path, this, into.Type(), i)
+		}
 		into.SetInt(int64(i))
 	case reflect.Uint,
 		reflect.Uint8,
@@ -155,6 +208,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowUint(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %T into %v: %d out of range", handler.path, this, into.Type(), i)
+		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
 		v := reflect.ValueOf(this.native())
-- 
2.43.0


From 543be4a0b26798acb8ad8c76de7bfcf1566f2cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 10/98] fix: map keys which do not fit are refused when
 unmarshalling

---
 enc/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enc/map.go b/enc/map.go
index 5c84ba2..10936ea 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -59,13 +59,13 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			case reflect.String:
 				kv.SetString(k)
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-				i, err := strconv.ParseInt(k, 10, 64)
+				i, err := strconv.ParseInt(k, 10, intokt.Bits())
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
 				kv.SetInt(i)
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				i, err := strconv.ParseUint(k, 10, 64)
+				i, err := strconv.ParseUint(k, 10, intokt.Bits())
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
-- 
2.43.0


From 33b6246c6bede28e1e1760cd3c968d9cc506ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 11/98] fix: fields tagged json:"-" are never unmarshalled

---
 enc/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index 10936ea..472399c 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -94,6 +94,9 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			ft := vt.Field(i)
 			if ft.IsExported() {
 				tag := parseTag(ft)
+				if tag.Skip {
+					continue
+				}
 				seen[tag.JSON] = true
 				v, ok := this[tag.JSON]
 				if ok {
-- 
2.43.0


From 3f83c2b0fad0d50b0de950d9db0d975fe0a58e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 12/98] fix: unmarshal paths are never shared

---
 enc/enc.go     | 5 +++++
 enc/handler.go | 2 +-
 enc/map.go     | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/enc/enc.go b/enc/enc.go
index f422593..788e00b 100644
--- a/enc/enc.go
+++ b/enc/enc.go
@@ -51,6 +51,11 @@ func (this path) String() string {
 	return strings.TrimPrefix(out, ".")
 }
 
+// always a copy, since siblings share the parent's path
+func (this path) append(p any) path {
+	return append(this[:len(this):len(this)], p)
+}
+
 func (this path) Parent() path {
 	if len(this) > 0 {
 		return this[0 : len(this)-2]
diff --git a/enc/handler.go b/enc/handler.go
index 252e164..2304309 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -25,7 +25,7 @@ type Handler struct {
 }
 
 func (this Handler) Append(p any) Handler {
-	this.path = append(this.path, p)
+	this.path = this.path.append(p)
 	return this
 }
 
diff --git a/enc/map.go b/enc/map.go
index 472399c..198b055 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -110,7 +110,7 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		if handler.UnhandledFields != nil {
 			for k, v := range this {
 				if !seen[k] {
-					err := handler.UnhandledFields(c, append(handler.path, k), v)
+					err := handler.UnhandledFields(c, handler.path.append(k), v)
 					if err != nil {
 						return ctx.WrapError(c, err)
 					}
-- 
2.43.0


From d36a7453ae71b36c148179d229d0c41f447461c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 13/98] fix: unmarshal into non empty interfaces

---
 enc/enc.go     | 12 ++++++++++++
 enc/list.go    |  4 +---
 enc/map.go     |  3 +--
 enc/numeric.go |  3 +--
 enc/scalar.go  |  5 ++---
 5 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/enc/enc.go b/enc/enc.go
index 788e00b..cb24175 100644
--- a/enc/enc.go
+++ b/enc/enc.go
@@ -63,6 +63,18 @@ func (this path) Parent() path {
 	return this
 }
 
+// set an interface to the first of the values which implements it
+func setInterface(c ctx.C, handler Handler, into reflect.Value, values ...any) error {
+	for _, x := range values {
+		v := reflect.ValueOf(x)
+		if v.Type().AssignableTo(into.Type()) {
+			into.Set(v)
+			return nil
+		}
+	}
+	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, values[0], into.Type())
+}
+
 // convert json.Unmarshal(&any) to enc.Node
 func fromNative(in any) Node {
 	switch in := in.(type) {
diff --git a/enc/list.go b/enc/list.go
index ef0fe6d..225f76e 100644
--- a/enc/list.go
+++ b/enc/list.go
@@ -40,9 +40,7 @@ func (this List) String() string {
 func (this List) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	switch into.Kind() {
 	case reflect.Interface:
-		x := this.native()
-		into.Set(reflect.ValueOf(x))
-		return nil
+		return setInterface(c, handler, into, this.native(), this)
 
 	case reflect.Slice:
 		slice := reflect.MakeSlice(into.Type(), len(this), len(this))
diff --git a/enc/map.go b/enc/map.go
index 198b055..b77cf22 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -122,8 +122,7 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		if handler.Debugf != nil {
 			handler.Debugf(c, "assign %v to %v", into.Type(), this)
 		}
-		into.Set(reflect.ValueOf(this.native()))
-		return nil
+		return setInterface(c, handler, into, this.native(), this)
 
 	default:
 		return ctx.NewErrorf(c, "can't expand %s %T into %v", handler.path, this, into.Type())
diff --git a/enc/numeric.go b/enc/numeric.go
index 3309400..db2af37 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -213,8 +213,7 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
-		v := reflect.ValueOf(this.native())
-		into.Set(v)
+		return setInterface(c, handler, into, this.native(), this)
 	case reflect.String:
 		into.SetString(this.String())
 	default:
diff --git a/enc/scalar.go b/enc/scalar.go
index b997673..2b8471c 100644
--- a/enc/scalar.go
+++ b/enc/scalar.go
@@ -29,8 +29,7 @@ func (this String) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) e
 	case reflect.String:
 		into.SetString(string(this))
 	case reflect.Interface:
-		v := reflect.ValueOf(this.native())
-		into.Set(v)
+		return setInterface(c, handler, into, this.native(), this)
 	default:
 		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 	}
@@ -95,7 +94,7 @@ func (this Bool) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) err
 	case reflect.Bool:
 		into.SetBool(bool(this))
 	case reflect.Interface:
-		into.Set(reflect.ValueOf(bool(this)))
+		return setInterface(c, handler, into, this.native(), this)
 	default:
 		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 	}
-- 
2.43.0


From 9668c736e777624e059d2241f0440e51a23594cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 14/98] fix: unmarshal enc.Time and enc.Duration into other
 types

---
 enc/time.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/enc/time.go b/enc/time.go
index 5f31a7c..d74986c 100644
--- a/enc/time.go
+++ b/enc/time.go
@@ -57,8 +57,11 @@ func (this *Time) UnmarshalJSON(j []byte) error {
 
 func (this Time) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	v := reflect.ValueOf(this)
-	if v.CanConvert(into.Type()) {
-		into.Set(v)
+	switch {
+	case into.Kind() == reflect.Interface:
+		return setInterface(c, handler, into, this, this.native())
+	case v.CanConvert(into.Type()):
+		into.Set(v.Convert(into.Type()))
 		return nil
 	}
 	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
@@ -86,9 +89,11 @@ func (this Duration) String() string {
 }
 
 func (this Duration) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
-	v := reflect.ValueOf(this)
-	if v.CanConvert(into.Type()) {
-		into.Set(v)
+	switch into.Kind() {
+	case reflect.Interface:
+		return setInterface(c, handler, into, this, this.native())
+	case reflect.Int64:
+		into.SetInt(int64(this))
 		return nil
 	}
 	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
-- 
2.43.0


From b186a87ace3bf12ded567947494ca3d56227d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 15/98] fix: nested nil nodes are unmarshalled as null

---
 enc/enc.go     | 7 +++++++
 enc/handler.go | 6 +++---
 enc/list.go    | 3 +--
 enc/map.go     | 2 +-
 enc/pairs.go   | 2 +-
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/enc/enc.go b/enc/enc.go
index cb24175..4579c58 100644
--- a/enc/enc.go
+++ b/enc/enc.go
@@ -63,6 +63,13 @@ func (this path) Parent() path {
 	return this
 }
 
+func native(n Node) any {
+	if n == nil {
+		return nil // same as Nil{}
+	}
+	return n.native()
+}
+
 // set an interface to the first of the values which implements it
 func setInterface(c ctx.C, handler Handler, into reflect.Value, values ...any) error {
 	for _, x := range values {
diff --git a/enc/handler.go b/enc/handler.go
index 2304309..6d786e1 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -43,14 +43,14 @@ func Unmarshal(c ctx.C, n Node, into any) error {
 }
 
 func (this Handler) Unmarshal(c ctx.C, n Node, into any) error {
-	if n == nil {
-		n = Nil{}
-	}
 	v := reflect.ValueOf(into).Elem()
 	return this.Append(v.Type()).unmarshal(c, n, v)
 }
 
 func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
+	if from == nil {
+		from = Nil{} // might be nested as well
+	}
 	//c = ctx.WithTag(c, "path", this.path.String()) // NOTE(oha): this is a bit slow because the json part
 	//defer log.Debugf(c, "unmarshal( %T %+v => %v{%+v} )", from, from, v.Type(), v)
 	if this.Debugf != nil {
diff --git a/enc/list.go b/enc/list.go
index 225f76e..97d38fd 100644
--- a/enc/list.go
+++ b/enc/list.go
@@ -15,8 +15,7 @@ var _ Node = List{}
 func (this List) native() any {
 	out := []any{}
 	for _, n := range this {
-		x := n.native()
-		out = append(out, x)
+		out = append(out, native(n))
 	}
 	return out
 }
diff --git a/enc/map.go b/enc/map.go
index b77cf22..b5b7a37 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -18,7 +18,7 @@ var _ Node = Map{}
 func (this Map) native() any {
 	out := map[string]any{}
 	for k, n := range this {
-		out[k] = n.native()
+		out[k] = native(n)
 	}
 	return out
 }
diff --git a/enc/pairs.go b/enc/pairs.go
index 9534a05..5ceb350 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -26,7 +26,7 @@ func (this Pairs) AsMap() Map {
 func (this Pairs) native() any {
 	out := map[string]any{}
 	for _, p := range this {
-		out[p.Name] = p.Value.native()
+		out[p.Name] = native(p.Value)
 	}
 	return out
 }
-- 
2.43.0


From 48c481cd12396be0d246097e03ab0469bf8857a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 16/98] fix: unmarshal Handler.Factory

---
 enc/handler.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 6d786e1..33782ab 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -128,13 +128,11 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 				return ctx.NewErrorf(c, "factory error: %w", err)
 			}
 			s := reflect.ValueOf(obj)
-			if !s.CanConvert(v.Elem().Type()) {
-				return ctx.NewErrorf(c, "Factory %v returned %v which can't be converted to %v",
-					v.Type().Elem(), s.Type(), v.Elem().Type())
+			if !s.IsValid() || !s.CanConvert(v.Type()) {
+				return ctx.NewErrorf(c, "Factory %v returned %T which can't be converted", v.Type(), obj)
 			}
-			log.Debugf(c, "Factory %v returned %v which can be converted to %v",
-				v.Type().Elem(), s.Type(), v.Elem().Type())
-			v.Elem().Set(s) // we set the value, not the pointer... because go.reflect
+			log.Debugf(c, "Factory %v returned %T which can be converted", v.Type(), obj)
+			v.Set(s.Convert(v.Type()))
 			return nil
 		}
 	}
-- 
2.43.0


From 73811cdf933e2c92f1e0c485a0cb3c933397c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 17/98] fix: text is refused for Digits unless it is a number

---
 enc/numeric.go | 6 ++++++
 enc/scalar.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/enc/numeric.go b/enc/numeric.go
index db2af37..8b9d015 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -98,6 +98,12 @@ func (this Digits) Uint64() (uint64, error) {
 	return i, err
 }
 
+// tells if the string is a valid JSON number
+func isNumber(s string) bool {
+	var n json.Number
+	return json.Unmarshal([]byte(s), &n) == nil && n.String() == s
+}
+
 // drop the decimals, after applying the exponent (if any)
 func trimDecimal(s string) string {
 	at := strings.IndexAny(s, "eE")
diff --git a/enc/scalar.go b/enc/scalar.go
index 2b8471c..26585d3 100644
--- a/enc/scalar.go
+++ b/enc/scalar.go
@@ -27,6 +27,9 @@ func (this String) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) e
 	//log.Debugf(c, "%v.unmarshalInto(%#v)", this, into)
 	switch into.Kind() {
 	case reflect.String:
+		if into.Type() == reflect.TypeOf(Digits("")) && !isNumber(string(this)) {
+			return ctx.NewErrorf(c, "can't unmarshal %s %T into %v: not a number", handler.path, this, into.Type())
+		}
 		into.SetString(string(this))
 	case reflect.Interface:
 		return setInterface(c, handler, into, this.native(), this)
-- 
2.43.0


From dbcd3eac441ffb502bf0c014e4f8d57ff9a54840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 18/98] fix: map keys with their own conversion

---
 enc/map.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/enc/map.go b/enc/map.go
index b5b7a37..5182050 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -55,7 +55,12 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		mv := reflect.MakeMap(t)
 		for k, n := range this {
 			kv := reflect.New(intokt).Elem()
-			switch intokt.Kind() {
+			kind := intokt.Kind()
+			switch kv.Addr().Interface().(type) {
+			case Unmarshaler, json.Unmarshaler:
+				kind = reflect.Invalid // they know better
+			}
+			switch kind {
 			case reflect.String:
 				kv.SetString(k)
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-- 
2.43.0


From 2cc8e475367f999e447497ddce5047bcb8a71300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 19/98] fix: unmarshal enc.Pairs into any uses the JSON names

---
 enc/pairs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enc/pairs.go b/enc/pairs.go
index 5ceb350..a4aba26 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -26,7 +26,7 @@ func (this Pairs) AsMap() Map {
 func (this Pairs) native() any {
 	out := map[string]any{}
 	for _, p := range this {
-		out[p.Name] = native(p.Value)
+		out[p.JSON] = native(p.Value)
 	}
 	return out
 }
-- 
2.43.0


From b20a988ad0a41bb3219a678f896983c2413f27ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 20/98] fix: unmarshal of nodes which can't be encoded returns
 an error

---
 enc/handler.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 33782ab..a2cba01 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -83,12 +83,19 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 		if this.Debugf != nil {
 			this.Debugf(c, "is %T", into)
 		}
-		*into = JSON{}.Encode(c, from)
+		j, err := json.Marshal(from)
+		if err != nil {
+			return ctx.NewErrorf(c, "can't unmarshal %T as %T: %w", from, into, err)
+		}
+		*into = j
 		warnIneff(c, "Warn: inefficient json.RawMessage, use enc.Node instead")
 		return nil
 	case *time.Time:
 		var t time.Time
-		err := json.Unmarshal(JSON{}.Encode(c, from), &t)
+		j, err := json.Marshal(from)
+		if err == nil {
+			err = json.Unmarshal(j, &t)
+		}
 		if err != nil {
 			return ctx.NewErrorf(c, "can't unmarshal %#v as time", from)
 		}
@@ -99,7 +106,10 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 			this.Debugf(c, "is %T", into)
 		}
 		warnIneff(c, "Warn: inefficient %T.UnmarshalJSON(): implement enc.Unmarshaler instead", into)
-		j, _ := json.Marshal(from) // we must go back to the json
+		j, err := json.Marshal(from) // we must go back to the json
+		if err != nil {
+			return ctx.NewErrorf(c, "can't unmarshal %T as %T: %w", from, into, err)
+		}
 		return into.UnmarshalJSON(j)
 	case *Node:
 		if this.Debugf != nil {
-- 
2.43.0


From 228373bfb1327a81f09fd812ca3980ac35fcd945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 21/98] fix: concurrent unmarshal of inefficient types

---
 enc/handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index a2cba01..bf2c96c 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -29,7 +30,7 @@ func (this Handler) Append(p any) Handler {
 	return this
 }
 
-var ineff = map[string]bool{}
+var ineff sync.Map // messages already logged
 
 func MustUnmarshal(c ctx.C, n Node, into any) {
 	err := Handler{}.Unmarshal(c, n, into)
@@ -171,8 +172,7 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 
 func warnIneff(c ctx.C, f string, args ...any) {
 	msg := fmt.Sprintf(f, args...)
-	if !ineff[msg] {
-		ineff[msg] = true
+	if _, found := ineff.LoadOrStore(msg, true); !found {
 		log.Warnf(c, f, args...)
 	}
 }
-- 
2.43.0


From 427c9832d7c7437fcf4aec95f0dbd36c0f171ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 22/98] fix: api templates with unexported fields

---
 api/handler.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/api/handler.go b/api/handler.go
index a2e2234..f3c7d4e 100644
--- a/api/handler.go
+++ b/api/handler.go
@@ -15,7 +15,8 @@ type Handler[T any] struct {
 	urls []*url.URL
 
 	auth *field
-	init map[int]reflect.Value
+	init reflect.Value
+	tmp  []field // fields not copied from init
 	in   []field
 	out  []field
 }
@@ -36,9 +37,7 @@ func NewClient[T any](c ctx.C, init T) (Client[T], error) {
 func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 	log.Debugf(c, "NewHandler[%T]", init)
 	initV := reflect.ValueOf(init)
-	this := Handler[T]{
-		init: map[int]reflect.Value{},
-	}
+	this := Handler[T]{}
 	if initV.Kind() != reflect.Pointer {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
@@ -48,6 +47,7 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 	//log.Debugf(c, "initV: %+v", initV)
 	initV = initV.Elem()
 	this.typ = initV.Type()
+	this.init = initV
 	if this.typ.Kind() != reflect.Struct {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
@@ -76,12 +76,8 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		if tag.url != nil {
 			this.urls = append(this.urls, tag.url)
 		}
-		if !tag.in && !tag.out && tag.url == nil {
-			v := initV.Field(f.i)
-			if !v.IsZero() {
-				this.init[f.i] = v
-				//log.Debugf(c, "init %v.%s = %#v", this.typ, f.tag.name, v)
-			}
+		if ft.IsExported() && (tag.in || tag.out || tag.url != nil) {
+			this.tmp = append(this.tmp, f)
 		}
 	}
 
@@ -223,9 +219,9 @@ func (this Server[T]) Recv(c ctx.C, req ServerRequest) (T, error) {
 	log.Debugf(c, "Server[%T].Recv(%+v)", zero, req)
 	ptrV := reflect.New(this.typ)
 	v := ptrV.Elem()
-	for i, fv := range this.init {
-		v.Field(i).Set(fv)
-		//log.Debugf(c, "init %T.%v = %#v", this.typ, this.typ.Field(i).Name, fv)
+	v.Set(this.init) // as a whole, since there might be unexported fields
+	for _, f := range this.tmp {
+		v.Field(f.i).SetZero()
 	}
 	for _, f := range this.in {
 		fv := v.Field(f.i)
-- 
2.43.0


From 61cb71e4e323d350e9ee573105403344d248e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 23/98] fix: pointers to nodes are never part of the tree

---
 enc/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index bf2c96c..772c6a4 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -231,6 +231,9 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 		}
 		return JSON{}.Decode(c, j)
 	case Node:
+		if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer {
+			return this.Marshal(c, v.Elem().Interface()) // a pointer is not expected as part of the tree
+		}
 		return in, nil
 	}
 
-- 
2.43.0


From b9e140b7cd08e60dcf79690280524257d61760ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 24/98] fix: api fields are replaced by the data received

---
 api/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/api/json.go b/api/json.go
index d327c5b..eb6cb23 100644
--- a/api/json.go
+++ b/api/json.go
@@ -80,6 +80,7 @@ func (this *JSON) Unmarshal(c ctx.C, name string, into reflect.Value) error {
 	if !ok {
 		return nil
 	}
+	into.SetZero() // nothing of the previous value must be left, even if omitted from the data
 	err := this.h.Unmarshal(c, n, into.Addr().Interface())
 	//err := json.Unmarshal(j, into.Addr().Interface())
 	if err != nil {
-- 
2.43.0


From 41aa66e3d21e9e90b42e39ce7255dab4511939ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:55 +0000
Subject: [PATCH 25/98] fix: openapi of unsupported types returns an error

---
 api/openapi/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index a681d0c..041bdf3 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -45,6 +45,9 @@ func (this *Service) SchemaFromType(c ctx.C, t reflect.Type, tags *reflect.Struc
 
 func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string) (s *Schema, err error) {
 	defer func() {
+		if s == nil {
+			return
+		}
 		if s.Format == s.Type {
 			s.Format = ""
 		}
-- 
2.43.0


From 37c5b666a525346edfff094aa4ac6c0232d6048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 26/98] fix: openapi skips fields which are not marshalled

---
 api/openapi/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 041bdf3..ffb9bfc 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -212,6 +212,9 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			var fields []string
 			for i := 0; i < tt.NumField(); i++ {
 				f := tt.Field(i)
+				if !f.IsExported() || f.Tag.Get("json") == "-" {
+					continue // never marshalled
+				}
 				s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")))
 				if err != nil {
 					return structSchema, err
-- 
2.43.0


From 8fdb337480c6a8b1662b04f024330c6127933426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:03 +0000
Subject: [PATCH 27/98] fix: openapi examples which are not finite numbers

---
 api/openapi/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index ffb9bfc..af42af4 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -3,6 +3,7 @@ package openapi
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -304,6 +305,9 @@ func tryDecodingAsFloat(c ctx.C, v string) any {
 		return nil
 	}
 	f, err := strconv.ParseFloat(v, 64)
+	if err == nil && (math.IsNaN(f) || math.IsInf(f, 0)) {
+		err = strconv.ErrRange // can't be encoded
+	}
 	if err != nil {
 		log.Warnf(c, "Unable to parse example %q as float: %s", v, err)
 		return v
-- 
2.43.0


From d45e4c509063ce5989085dfa8a5bf9177a703b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:53 +0000
Subject: [PATCH 28/98] fix: openapi of types with their own marshaller

---
 api/openapi/schema.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index af42af4..627cfcc 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -86,14 +86,39 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			Example: example,
 		}, nil
 
+	}
+
+	if t.Kind() == reflect.Pointer {
+		zero = reflect.New(tt).Interface() // might have more methods
+	}
+	switch zero.(type) {
 	case json.Marshaler, enc.Marshaler:
 		// Handle corner case where a type can be struct, but marshalled to a primitive json type
 		// In openapi schema, we want to describe the marshalled json type
 		j, err := enc.MarshalJSON(c, zero)
 		if err == nil {
 			switch j[0] {
-			case '{', 'n', '[':
+			case 'n':
+				// unknown, we dig further...
+			case '{':
+				if tt.Kind() != reflect.Struct && tt.Kind() != reflect.Map {
+					return &Schema{
+						Type:    "object",
+						Format:  t.String(),
+						Example: tryDecodingAsNode(c, example),
+					}, nil
+				}
 				// object like, we dig further...
+			case '[':
+				if tt.Kind() != reflect.Slice && tt.Kind() != reflect.Array {
+					return &Schema{
+						Type:    "array",
+						Format:  t.String(),
+						Items:   &Schema{},
+						Example: tryDecodingAsList(c, example),
+					}, nil
+				}
+				// array like, we dig further...
 			case '"':
 				return &Schema{
 					Type:    "string",
@@ -106,7 +131,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 					Format:  t.String(),
 					Example: tryDecodingAsBool(c, example),
 				}, nil
-			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
+			case '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
 				// It could be either integer or float here, but it's not always possible to determine which
 				// Therefore just setting the type to "number", and doing best effort parsing of the example
 				var ex any
@@ -121,7 +146,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 					Example: ex,
 				}, nil
 			default:
-				panic(fmt.Sprintf("%s => %s", t.String(), j))
+				return nil, ctx.NewErrorf(c, "unexpected json: %s => %s", t.String(), j)
 			}
 		}
 	}
-- 
2.43.0


From 05794f432246c0ebb0287c54f4d4a34a5332ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:40 +0000
Subject: [PATCH 29/98] fix: openapi of recursive types

---
 api/openapi/schema.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 627cfcc..9ddfe41 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -40,11 +40,12 @@ func (this *Service) SchemaFromType(c ctx.C, t reflect.Type, tags *reflect.Struc
 		doc = tags.Get("doc")
 		example = strings.TrimSpace(tags.Get("example"))
 	}
-	s, err := this.schemaFromType(c, t, doc, example)
+	s, err := this.schemaFromType(c, t, doc, example, nil)
 	return s, err
 }
 
-func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string) (s *Schema, err error) {
+// parents are the types which are being expanded in place
+func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string, parents []reflect.Type) (s *Schema, err error) {
 	defer func() {
 		if s == nil {
 			return
@@ -60,6 +61,10 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 
 	tt := t                            // tt is the reference type, but t stays the same
 	for tt.Kind() == reflect.Pointer { // if pointer, find its value type
+		if contains(parents, tt) {
+			return nil, ctx.NewErrorf(c, "recursive type: %v", tt)
+		}
+		parents = append(parents[:len(parents):len(parents)], tt)
 		tt = tt.Elem()
 	}
 
@@ -151,6 +156,11 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		}
 	}
 
+	if contains(parents, tt) {
+		return nil, ctx.NewErrorf(c, "recursive type: %v", tt)
+	}
+	parents = append(parents[:len(parents):len(parents)], tt)
+
 	switch tt.Kind() {
 	case reflect.Bool:
 		return &Schema{
@@ -183,7 +193,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		}, nil
 
 	case reflect.Array, reflect.Slice:
-		elemSchema, err := this.schemaFromType(c, tt.Elem(), "", "")
+		elemSchema, err := this.schemaFromType(c, tt.Elem(), "", "", parents)
 		if err != nil {
 			return nil, err
 		}
@@ -196,11 +206,11 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		}, nil
 
 	case reflect.Map:
-		keySchema, err := this.schemaFromType(c, tt.Key(), "", "")
+		keySchema, err := this.schemaFromType(c, tt.Key(), "", "", parents)
 		if err != nil {
 			return nil, err
 		}
-		elemSchema, err := this.schemaFromType(c, tt.Elem(), "", "")
+		elemSchema, err := this.schemaFromType(c, tt.Elem(), "", "", parents)
 		if err != nil {
 			return nil, err
 		}
@@ -231,6 +241,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 				Properties: map[string]*Schema{},
 			}
 			if structKey != "" {
+				parents = nil // not expanded in place
 				structSchema.Format = t.String()
 				this.Components.Schemas[structKey] = structSchema // adding it before recursion, to protect against infinite recursion
 			}
@@ -241,7 +252,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 				if !f.IsExported() || f.Tag.Get("json") == "-" {
 					continue // never marshalled
 				}
-				s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")))
+				s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")), parents)
 				if err != nil {
 					return structSchema, err
 				}
@@ -297,6 +308,15 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 	}
 }
 
+func contains(list []reflect.Type, t reflect.Type) bool {
+	for _, x := range list {
+		if x == t {
+			return true
+		}
+	}
+	return false
+}
+
 func (this *Service) formatFromSchema(s *Schema) string {
 	if s == nil {
 		return ""
-- 
2.43.0


From 88c583af5eb15d8cea52edc03d046511688af7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:44 +0000
Subject: [PATCH 30/98] fix: openapi component names are valid and unique

---
 api/openapi/openapi.go |  5 +++++
 api/openapi/schema.go  | 31 ++++++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/api/openapi/openapi.go b/api/openapi/openapi.go
index 55a4837..3f177c2 100644
--- a/api/openapi/openapi.go
+++ b/api/openapi/openapi.go
@@ -1,5 +1,7 @@
 package openapi
 
+import "reflect"
+
 func NewService(title string) *Service {
 	out := &Service{
 		OpenAPI: "3.0.0",
@@ -32,6 +34,9 @@ type Service struct {
 
 	Paths      map[string]*Path `json:"paths"`
 	Components Component        `json:"components"`
+
+	types map[string]reflect.Type // by name in Components.Schemas
+	added []string                // names added by the current call
 }
 
 type Component struct {
diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 9ddfe41..7787a70 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"regexp"
 	"strconv"
 	"strings"
 	"time"
@@ -40,7 +41,14 @@ func (this *Service) SchemaFromType(c ctx.C, t reflect.Type, tags *reflect.Struc
 		doc = tags.Get("doc")
 		example = strings.TrimSpace(tags.Get("example"))
 	}
+	this.added = nil
 	s, err := this.schemaFromType(c, t, doc, example, nil)
+	if err != nil {
+		for _, key := range this.added { // incomplete, or referring to incomplete ones
+			delete(this.Components.Schemas, key)
+			delete(this.types, key)
+		}
+	}
 	return s, err
 }
 
@@ -242,8 +250,10 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			}
 			if structKey != "" {
 				parents = nil // not expanded in place
-				structSchema.Format = t.String()
+				structSchema.Format = tt.String()
 				this.Components.Schemas[structKey] = structSchema // adding it before recursion, to protect against infinite recursion
+				this.types[structKey] = tt
+				this.added = append(this.added, structKey)
 			}
 
 			var fields []string
@@ -281,14 +291,16 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 
 		// While named structs are referenced with "$ref"
 		// Create reference
-		structKey := tt.PkgPath() + "/" + tt.Name()
-		structKey = strings.ReplaceAll(structKey, "/", "_")
+		structKey := this.structKey(tt)
 		schema := &Schema{Reference: referencePrefix + structKey}
 
 		// Add definition if not exists (the same struct type should only be defined once)
 		if this.Components.Schemas == nil {
 			this.Components.Schemas = make(map[string]*Schema)
 		}
+		if this.types == nil {
+			this.types = make(map[string]reflect.Type)
+		}
 		if _, exists := this.Components.Schemas[structKey]; !exists {
 			structSchema, err := build(structKey)
 			if err != nil {
@@ -308,6 +320,19 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 	}
 }
 
+var invalidKey = regexp.MustCompile(`[^a-zA-Z0-9._-]`)
+
+// valid as component name, and different for each type
+func (this *Service) structKey(t reflect.Type) string {
+	base := invalidKey.ReplaceAllString(t.PkgPath()+"/"+t.Name(), "_")
+	for i, key := 2, base; ; i++ {
+		if other, found := this.types[key]; !found || other == t {
+			return key
+		}
+		key = fmt.Sprintf("%s_%d", base, i) // e.g. types local to functions
+	}
+}
+
 func contains(list []reflect.Type, t reflect.Type) bool {
 	for _, x := range list {
 		if x == t {
-- 
2.43.0


From 9c2227b14c6e7253f83162fad21d7761d648341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 31/98] fix: sibling spans have different ids

---
 ctx/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx/span.go b/ctx/span.go
index 401c379..ee68440 100644
--- a/ctx/span.go
+++ b/ctx/span.go
@@ -18,7 +18,7 @@ func WithTracking(c C, suggest string) C {
 	if suggest == "" {
 		suggest = uuid.NewString()
 	}
-	return trackingCtx{
+	return &trackingCtx{
 		C:    WithTag(c, "tracking-id", suggest),
 		ID:   suggest,
 		Last: 0,
@@ -38,7 +38,7 @@ func GetTracking(c C) string {
 
 type trackingNext struct{}
 
-func (c trackingCtx) Value(k any) any {
+func (c *trackingCtx) Value(k any) any {
 	switch k.(type) {
 	case trackingNext:
 		step := atomic.AddInt32(&c.Last, 1)
-- 
2.43.0


From a08ad3b07364aa01fca2ee81bccd17a63bd3d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 32/98] fix: malformed requests are client errors

---
 http/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/api.go b/http/api.go
index 69f2ef4..4631503 100644
--- a/http/api.go
+++ b/http/api.go
@@ -33,7 +33,7 @@ func (s *Server) RegisterAPI(c ctx.C, obj Doable) (*openapi.PathItem, error) {
 		if r.Body != nil {
 			err := req.ReadFrom(c, bytes.NewBuffer(in))
 			if err != nil {
-				return nil, ctx.NewErrorf(c, "can't read request body: %v", err)
+				return nil, NewErrorf(c, 400, "can't read request body: %v", err)
 			}
 			defer r.Body.Close()
 		} else {
-- 
2.43.0


From e9eeeb6d4c1d152f0597c83ed130d68b01ec132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 33/98] fix: gzip depends on Accept-Encoding

---
 http/server.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index f5c4cc0..8aefe96 100644
--- a/http/server.go
+++ b/http/server.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"strconv"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -188,6 +189,21 @@ func (this *Server) HandleRequest(path string, f func(c ctx.C, in []byte, r *htt
 	return pi
 }
 
+func acceptGzip(r *http.Request) bool {
+	for _, h := range r.Header.Values("Accept-Encoding") {
+		for _, p := range strings.Split(h, ",") {
+			name, params, _ := strings.Cut(p, ";")
+			if !strings.EqualFold(strings.TrimSpace(name), "gzip") {
+				continue
+			}
+			k, v, _ := strings.Cut(params, "=")
+			q, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
+			return !(err == nil && q == 0 && strings.EqualFold(strings.TrimSpace(k), "q")) // gzip;q=0 means not acceptable
+		}
+	}
+	return false
+}
+
 func (this *Server) handleRequest(path string, f func(c ctx.C, in []byte, r *http.Request) ([]byte, error)) {
 	this.mux.HandleFunc(path, func(w http.ResponseWriter, r *http.Request) {
 		c := r.Context()
@@ -230,7 +246,7 @@ func (this *Server) handleRequest(path string, f func(c ctx.C, in []byte, r *htt
 		}
 
 		w.Header().Add("Content-Type", "application/json")
-		if len(out) > 16*1024 && strings.Contains(r.Header.Get("Accept"), "gzip") { // TODO ugly parsing, but good enough for now
+		if len(out) > 16*1024 && acceptGzip(r) {
 			w.Header().Add("Content-Encoding", "gzip")
 			w2 := gzip.NewWriter(w)
 			_, err = w2.Write(out)
-- 
2.43.0


From 9f2464d5a924011a46d0a9052d56164305834a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 34/98] fix: each request has its own tracking id

---
 http/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index 8aefe96..719a89e 100644
--- a/http/server.go
+++ b/http/server.go
@@ -44,7 +44,8 @@ func NewServer(c ctx.C) *Server {
 	}
 	this.h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
 		t0 := time.Now()
-		c := r.Context()
+		c, cf := ctx.Span(r.Context(), "http") // each request has its own tracking
+		defer cf(nil)
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-- 
2.43.0


From a92efdcfc32ca5ca17a15ddd8174a3dc9ac9b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 35/98] fix: errors with an invalid status code

---
 http/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/error.go b/http/error.go
index 5f82d34..996966f 100644
--- a/http/error.go
+++ b/http/error.go
@@ -33,7 +33,7 @@ func (this Error) Unwrap() error {
 
 func ErrorCode(err error, def int) int {
 	var e Error
-	if errors.As(err, &e) {
+	if errors.As(err, &e) && e.Code >= 200 && e.Code <= 999 { // or it can't be sent as status
 		return e.Code
 	}
 	return def
-- 
2.43.0


From 5cbb4a99bce6caefe482b836f90fc35e379b7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:24 +0000
Subject: [PATCH 36/98] fix: requests are observed once

---
 http/mux.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/http/mux.go b/http/mux.go
index cac7611..4af5a68 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -19,6 +19,11 @@ func (this *Server) HandleFunc(path string, h http.HandlerFunc) *openapi.Path {
 
 func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 	this.mux.HandleFunc(path, func(w http.ResponseWriter, r *http.Request) {
+		switch w.(type) {
+		case *response, responseHijacker: // from our own server, which tags and observe the request already
+			h.ServeHTTP(w, r)
+			return
+		}
 		t0 := time.Now()
 		c := r.Context()
 		c = ctx.WithTag(c, "ua", r.UserAgent())
-- 
2.43.0


From cd1049f3801c2a60ccb517e08cd193b6de652e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 37/98] fix: informational responses

---
 http/mux.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/mux.go b/http/mux.go
index 4af5a68..e119e3a 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -63,6 +63,10 @@ type responseHijacker struct {
 var _ http.Hijacker = &responseHijacker{}
 
 func (r *response) WriteHeader(code int) {
+	if r.code == 0 && code >= 100 && code < 200 && code != 101 { // informational, the real one is still to come
+		r.ResponseWriter.WriteHeader(code)
+		return
+	}
 	if r.code != 0 {
 		stack := utils.Stack(1, 10)
 		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\n"))
-- 
2.43.0


From ef40317b0bb33eee3b76aeef151f9d160c4ef159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 38/98] fix: metrics of responses with no content

---
 http/mux.go    | 21 +++++++++++++++++----
 http/server.go |  4 ++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/http/mux.go b/http/mux.go
index e119e3a..d2df54b 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -29,7 +29,7 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w}
 		switch w := w.(type) {
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
@@ -40,7 +40,7 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 
 		metric{
 			Method: r.Method,
-			Code:   w2.code,
+			Code:   w2.status(),
 			Path:   path,
 		}.observe(time.Since(t0))
 	})
@@ -52,7 +52,16 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 
 type response struct {
 	http.ResponseWriter
-	code int
+	code     int
+	hijacked bool
+}
+
+// the code sent to the client
+func (r *response) status() int {
+	if r.code == 0 && !r.hijacked {
+		return 200 // implicit, when nothing is written
+	}
+	return r.code
 }
 
 type responseHijacker struct {
@@ -84,5 +93,9 @@ func (r *response) Write(b []byte) (int, error) {
 }
 
 func (r responseHijacker) Hijack() (conn net.Conn, rw *bufio.ReadWriter, err error) {
-	return r.hijacker.Hijack()
+	conn, rw, err = r.hijacker.Hijack()
+	if err == nil {
+		r.hijacked = true
+	}
+	return conn, rw, err
 }
diff --git a/http/server.go b/http/server.go
index 719a89e..531dda7 100644
--- a/http/server.go
+++ b/http/server.go
@@ -49,7 +49,7 @@ func NewServer(c ctx.C) *Server {
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w}
 		switch w := w.(type) {
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
@@ -60,7 +60,7 @@ func NewServer(c ctx.C) *Server {
 
 		metric{
 			Method: r.Method,
-			Code:   w2.code,
+			Code:   w2.status(),
 			Path:   r.URL.Path, // TODO(oha) if we have templates, this won't work
 		}.observe(time.Since(t0))
 	})
-- 
2.43.0


From 8cd1614075b0f1912d60490fd2e74398c58aeae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 39/98] fix: shutdown waits for the requests in flight

---
 http/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/http/server.go b/http/server.go
index 531dda7..921d1cc 100644
--- a/http/server.go
+++ b/http/server.go
@@ -119,6 +119,7 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		return nil, err
 	}
 	ch := make(chan error, 1)
+	stopped := make(chan struct{})
 
 	// we start the server in a goroutine
 	go func() {
@@ -134,9 +135,13 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		if err != nil {
 			log.Warnf(c, "listen(%q) %v", addr, err)
 		}
+		if err == http.ErrServerClosed {
+			<-stopped // there might still be requests to complete
+		}
 	}()
 
 	go func() {
+		defer close(stopped)
 		<-shutdown.Started()
 		c, cf := ctx.WithTimeout(c, 30*time.Second)
 		defer cf()
-- 
2.43.0


From df601d1881e0adfcb6c587760f1f9cf4cfe2308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 40/98] fix: client of objects without URL

---
 http/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/client.go b/http/client.go
index e242969..727239f 100644
--- a/http/client.go
+++ b/http/client.go
@@ -90,6 +90,9 @@ func (this Client) API(c ctx.C, obj Doable) error {
 		}
 
 		u := h.URL()
+		if u == nil {
+			return ctx.NewErrorf(c, "no URL for %T", obj)
+		}
 		if this.BaseUrl != nil {
 			u, err = this.BaseUrl.Parse(u.String())
 			if err != nil {
-- 
2.43.0


From b900f613394bc87417dc19929640d424af071890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 41/98] fix: the client closes the body of failed requests

---
 http/client.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/http/client.go b/http/client.go
index 727239f..96a19e9 100644
--- a/http/client.go
+++ b/http/client.go
@@ -29,6 +29,7 @@ func (this Client) Get(c ctx.C, url string) ([]byte, error) {
 	}
 	res, err := this.Do(req)
 	if err != nil {
+		closeBody(res)
 		return nil, err
 	}
 	if res.Body != nil {
@@ -50,6 +51,7 @@ func (this Client) Post(c ctx.C, url string, body []byte) ([]byte, error) {
 	req.Header.Set(`Content-Type`, `application/json`)
 	res, err := this.Do(req)
 	if err != nil {
+		closeBody(res)
 		return nil, err
 	}
 	if res.Body != nil {
@@ -72,6 +74,13 @@ func (this Client) Do(r *http.Request) (*http.Response, error) {
 	}
 }
 
+// Do() returns the response even in case of errors
+func closeBody(res *http.Response) {
+	if res != nil && res.Body != nil {
+		res.Body.Close()
+	}
+}
+
 func (this Client) API(c ctx.C, obj Doable) error {
 	c = ctx.WithTag(c, "api", fmt.Sprintf("client %T", obj))
 	h, err := api.NewClient(c, obj)
@@ -108,6 +117,7 @@ func (this Client) API(c ctx.C, obj Doable) error {
 		log.Debugf(c, "client[%T].Send() %s", obj, j)
 		res, err := this.Do(req)
 		if err != nil {
+			closeBody(res)
 			return ctx.NewErrorf(c, "can't send request: %w", err)
 		}
 		switch res.StatusCode {
@@ -116,10 +126,10 @@ func (this Client) API(c ctx.C, obj Doable) error {
 			return nil
 		case 200:
 			err := data.ReadFrom(c, res.Body)
+			res.Body.Close()
 			if err != nil {
 				return ctx.NewErrorf(c, "can't read response: %w", err)
 			}
-			res.Body.Close()
 			log.Debugf(c, "client[%T].Recv() %s", obj, j)
 			return h.Recv(c, data, obj)
 		default:
-- 
2.43.0


From 762be3869d6a2f4c26488cabb268419adc90602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 42/98] fix: CallHandler.MaxLength is enforced

---
 http/call.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/http/call.go b/http/call.go
index adbc369..b69dfde 100644
--- a/http/call.go
+++ b/http/call.go
@@ -2,6 +2,7 @@ package http
 
 import (
 	"bytes"
+	"errors"
 	"net/http"
 	"time"
 
@@ -24,6 +25,13 @@ func (this CallHandler) readTimeout() time.Duration {
 	return 30 * time.Second
 }
 
+func (this CallHandler) maxLength() int64 {
+	if this.MaxLength > 0 {
+		return int64(this.MaxLength)
+	}
+	return 1 << 20
+}
+
 func (this CallHandler) Register(s *Server) {
 	s.mux.HandleFunc(this.Path, func(w http.ResponseWriter, r *http.Request) {
 		c := r.Context()
@@ -36,8 +44,12 @@ func (this CallHandler) Register(s *Server) {
 			}
 			var err error
 			if r.Body != nil {
-				call.reqBody, err = utils.ReadAll(c, r.Body, r.Body.Close)
+				call.reqBody, err = utils.ReadAll(c, http.MaxBytesReader(w, r.Body, this.maxLength()), r.Body.Close)
 				if err != nil {
+					var tooLong *http.MaxBytesError
+					if errors.As(err, &tooLong) {
+						return nil, NewErrorf(c, 413, "can't read body: %w", err)
+					}
 					return nil, NewErrorf(c, 400, "can't read body: %w", err)
 				}
 			}
-- 
2.43.0


From 05d7b0197d6d802d884c2cda69f73d9cd4d82147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 43/98] fix: Listen returns an error once the shutdown began

---
 http/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/server.go b/http/server.go
index 921d1cc..d0a888d 100644
--- a/http/server.go
+++ b/http/server.go
@@ -135,6 +135,10 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		if err != nil {
 			log.Warnf(c, "listen(%q) %v", addr, err)
 		}
+		select {
+		case ch <- err: // in case it returned before the first Accept()
+		default:
+		}
 		if err == http.ErrServerClosed {
 			<-stopped // there might still be requests to complete
 		}
-- 
2.43.0


From d9b68cdccb439e067df373e4f67896fe1ce4793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 44/98] fix: ReadAll keeps the data delivered with the end of
 the stream

---
 utils/io.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index c822cb1..de7674a 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"bytes"
 	"io"
+	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -11,6 +12,7 @@ import (
 // Note: it uses an internal go-routine, which will block on read
 // If the close function is passed, it will be called when read is exhausted.
 func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
+	var mu sync.Mutex // the go-routine might outlive this call
 	out := bytes.Buffer{}
 	ch := make(chan error, 1)
 	if close != nil {
@@ -21,17 +23,21 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
 			ct, err := r.Read(buf)
+			mu.Lock()
+			_, _ = out.Write(buf[0:ct]) // note: there might be both data and error
+			mu.Unlock()
 			if err != nil {
 				ch <- err
 				return
 			}
-			_, _ = out.Write(buf[0:ct])
 			//log.Printf("read %d bytes...", ct)
 		}
 	}()
 	select {
 	case <-c.Done():
-		return out.Bytes(), ctx.NewErrorf(c, "timeout: %w", c.Err())
+		mu.Lock()
+		defer mu.Unlock()
+		return append([]byte{}, out.Bytes()...), ctx.NewErrorf(c, "timeout: %w", c.Err())
 	case err := <-ch:
 		if err == io.EOF {
 			return out.Bytes(), nil
-- 
2.43.0


From 045d19906ec03398d6fff7d41f8f0f4449764c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 45/98] fix: labels with the escapes of the exposition format

---
 utils/prom/labels.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/prom/labels.go b/utils/prom/labels.go
index 66760a0..620005f 100644
--- a/utils/prom/labels.go
+++ b/utils/prom/labels.go
@@ -2,8 +2,12 @@ package prom
 
 import (
 	"fmt"
+	"strings"
 )
 
+// the only escapes of the exposition format
+var labelEscape = strings.NewReplacer("\\", `\\`, "\"", `\"`, "\n", `\n`)
+
 // returns a list of labels comma separated
 func stringify(keys []string, vals []string) string {
 	if len(keys) != len(vals) {
@@ -11,7 +15,7 @@ func stringify(keys []string, vals []string) string {
 	}
 	s := ""
 	for i := 0; i < len(keys); i++ {
-		s += fmt.Sprintf(",%s=%q", keys[i], vals[i])
+		s += fmt.Sprintf(`,%s="%s"`, keys[i], labelEscape.Replace(strings.ToValidUTF8(vals[i], "\uFFFD")))
 	}
 	if s == "" {
 		return ""
-- 
2.43.0


From 815202e0f4e8f0bd585d798b31db18b29f12a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 46/98] fix: escape the help text of the metrics

---
 utils/prom/counter.go   | 2 +-
 utils/prom/custom.go    | 2 +-
 utils/prom/gauge.go     | 2 +-
 utils/prom/histogram.go | 2 +-
 utils/prom/labels.go    | 1 +
 5 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index caf75da..cbf222d 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -36,7 +36,7 @@ func (this *Counter) Print(w io.Writer) error {
 	return this.val.RangeErr(func(l string, v *counter) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", this.Name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", this.Name, helpEscape.Replace(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/custom.go b/utils/prom/custom.go
index 87e2c23..0491ac7 100644
--- a/utils/prom/custom.go
+++ b/utils/prom/custom.go
@@ -17,7 +17,7 @@ func (this *Custom) Print(name string, w io.Writer) error {
 	if len(m) == 0 {
 		return nil
 	}
-	_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+	_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, helpEscape.Replace(this.Desc))
 	if err != nil {
 		return err
 	}
diff --git a/utils/prom/gauge.go b/utils/prom/gauge.go
index 12a7d20..9ce2fc7 100644
--- a/utils/prom/gauge.go
+++ b/utils/prom/gauge.go
@@ -67,7 +67,7 @@ func (this *Gauge) Print(name string, w io.Writer) error {
 	return this.val.RangeErr(func(l string, x gaugeEntry) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, helpEscape.Replace(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index e16d811..c283816 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -58,7 +58,7 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 	return this.val.RangeErr(func(l string, v *histogramTS) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, helpEscape.Replace(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/labels.go b/utils/prom/labels.go
index 620005f..6f73170 100644
--- a/utils/prom/labels.go
+++ b/utils/prom/labels.go
@@ -7,6 +7,7 @@ import (
 
 // the only escapes of the exposition format
 var labelEscape = strings.NewReplacer("\\", `\\`, "\"", `\"`, "\n", `\n`)
+var helpEscape = strings.NewReplacer("\\", `\\`, "\n", `\n`)
 
 // returns a list of labels comma separated
 func stringify(keys []string, vals []string) string {
-- 
2.43.0


From d4585f5cf6ca14511cc1f19d8724f24bf77ac039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:27 +0000
Subject: [PATCH 47/98] fix: histograms can be printed while first observed

---
 utils/prom/histogram.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index c283816..91b2597 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -74,6 +74,9 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (err error) {
 	this.m.Lock()
 	defer this.m.Unlock()
+	for len(this.buckets) < len(le) { // not observed yet
+		this.buckets = append(this.buckets, 0)
+	}
 	if labels == "" {
 		for i, le := range le {
 			b := this.buckets[i]
-- 
2.43.0


From b8c263ee65631e09a9195a3e7b05b2d8bd1ac968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 48/98] fix: counters are printed under their lock

---
 utils/prom/counter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index cbf222d..7b994d8 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -31,6 +31,12 @@ func (this *counter) observe(val float64) {
 	this.sum += val
 }
 
+func (this *counter) value() float64 {
+	this.m.Lock()
+	defer this.m.Unlock()
+	return this.sum
+}
+
 func (this *Counter) Print(w io.Writer) error {
 	first := true
 	return this.val.RangeErr(func(l string, v *counter) error {
@@ -53,10 +59,10 @@ func (this *Counter) Print(w io.Writer) error {
 			}
 		}
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.sum)
+			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.value())
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.sum)
+			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.value())
 			return err
 		}
 	})
-- 
2.43.0


From 511957ed669f3c6f8276acbb620501258612902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 49/98] fix: print sums with all their digits

---
 utils/prom/counter.go   | 4 ++--
 utils/prom/histogram.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index 7b994d8..216f4a8 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -59,10 +59,10 @@ func (this *Counter) Print(w io.Writer) error {
 			}
 		}
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.value())
+			_, err := fmt.Fprintf(w, "%s %v\n", this.Name, v.value())
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.value())
+			_, err := fmt.Fprintf(w, "%s{%s} %v\n", this.Name, l, v.value())
 			return err
 		}
 	})
diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index 91b2597..2ad8f70 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -91,7 +91,7 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 			return err
 		}
 
-		_, err = fmt.Fprintf(w, "%s_sum %f\n", name, this.sum)
+		_, err = fmt.Fprintf(w, "%s_sum %v\n", name, this.sum)
 		if err != nil {
 			return err
 		}
@@ -113,7 +113,7 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 			return err
 		}
 
-		_, err = fmt.Fprintf(w, "%s_sum{%s} %f\n", name, labels, this.sum)
+		_, err = fmt.Fprintf(w, "%s_sum{%s} %v\n", name, labels, this.sum)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From bd8855ef66b1454146521c908be9265a5df0edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:52 +0000
Subject: [PATCH 50/98] fix: a hold can be released more than once

---
 shutdown/shutdown.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/shutdown/shutdown.go b/shutdown/shutdown.go
index 2aab1ac..de7e01a 100644
--- a/shutdown/shutdown.go
+++ b/shutdown/shutdown.go
@@ -65,14 +65,20 @@ func (this *shutter) done() <-chan struct{} {
 // prevent the shutdown to complete until released
 func (this *shutter) hold() ReleaseFn {
 	this.wg.Add(1)
-	return this.wg.Done
+	return this.release()
+}
+
+// each hold is released only once
+func (this *shutter) release() ReleaseFn {
+	var once sync.Once
+	return func() { once.Do(this.wg.Done) }
 }
 
 // prevents the shutdown to complete until released, and also wait for the shutdown to start
 func (this *shutter) holdAndWait() ReleaseFn {
 	this.wg.Add(1)
 	<-this.ch
-	return this.wg.Done
+	return this.release()
 }
 
 // setup signals and wait for the shutdown to complete
-- 
2.43.0


From 5d398ac394e6f538d87336c08e117ee68661e3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:55 +0000
Subject: [PATCH 51/98] fix: holds can be taken while the last one is released

---
 shutdown/shutdown.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/shutdown/shutdown.go b/shutdown/shutdown.go
index de7e01a..c9d34be 100644
--- a/shutdown/shutdown.go
+++ b/shutdown/shutdown.go
@@ -18,8 +18,12 @@ type shutter struct {
 	ch   chan struct{}
 	ch5  chan struct{}
 	once sync.Once
+
 	// active services holding the shutdown to complete
-	wg sync.WaitGroup
+	// Note: not a sync.WaitGroup, which can't be used again while Wait() returns
+	m     sync.Mutex
+	holds int
+	idle  chan struct{} // closed when the last hold is released, if anyone is waiting
 }
 
 var shutdowner = newShutter()
@@ -54,29 +58,44 @@ func (this *shutter) started5Sec() <-chan struct{} {
 
 // returns a channel that will close when the shutdown has completed
 func (this *shutter) done() <-chan struct{} {
-	ch := make(chan struct{})
-	go func() {
-		this.wg.Wait()
+	this.m.Lock()
+	defer this.m.Unlock()
+	if this.holds == 0 {
+		ch := make(chan struct{})
 		close(ch)
-	}()
-	return ch
+		return ch
+	}
+	if this.idle == nil {
+		this.idle = make(chan struct{})
+	}
+	return this.idle
+}
+
+func (this *shutter) add(n int) {
+	this.m.Lock()
+	defer this.m.Unlock()
+	this.holds += n
+	if this.holds == 0 && this.idle != nil {
+		close(this.idle)
+		this.idle = nil
+	}
 }
 
 // prevent the shutdown to complete until released
 func (this *shutter) hold() ReleaseFn {
-	this.wg.Add(1)
+	this.add(1)
 	return this.release()
 }
 
 // each hold is released only once
 func (this *shutter) release() ReleaseFn {
 	var once sync.Once
-	return func() { once.Do(this.wg.Done) }
+	return func() { once.Do(func() { this.add(-1) }) }
 }
 
 // prevents the shutdown to complete until released, and also wait for the shutdown to start
 func (this *shutter) holdAndWait() ReleaseFn {
-	this.wg.Add(1)
+	this.add(1)
 	<-this.ch
 	return this.release()
 }
-- 
2.43.0


From 733bcd3c060bbd4189aa75ad925d13b86c300b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 52/98] fix: Listen refuses to start once the shutdown began

---
 http/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/http/server.go b/http/server.go
index d0a888d..3928534 100644
--- a/http/server.go
+++ b/http/server.go
@@ -96,6 +96,11 @@ func (this Server) Mux() *http.ServeMux {
 }
 
 func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
+	select {
+	case <-shutdown.Started():
+		return nil, shutdown.Err
+	default:
+	}
 	s := http.Server{
 		BaseContext: func(l net.Listener) context.Context {
 			return ctx.WithTag(c, "http.addr", l.Addr().String())
-- 
2.43.0


From 81edc505b529984c3a731d4ade06c39d1464321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:50 +0000
Subject: [PATCH 53/98] fix: websocket control and partial frames

---
 http/ws/ws.go | 104 ++++++++++++++++++++++++++++----------------------
 1 file changed, 59 insertions(+), 45 deletions(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index 8b18d60..fc6ebc0 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -1,7 +1,6 @@
 package ws
 
 import (
-	"fmt"
 	"io"
 	"sync"
 
@@ -70,54 +69,69 @@ func (this *wsImpl) Read(c ctx.C) (enc.Node, error) {
 }
 
 func (this *wsImpl) read(c ctx.C) ([]byte, error) {
-	r, err := this.conn.NewFrameReader()
-	if err != nil {
-		return nil, err
-	}
-	hr := r.HeaderReader()
-	if hr != nil {
-		//d, _ := io.ReadAll(hr)
-		//log.Debugf(c, "ws head: %x (%q)", d, d)
-		_, _ = io.Copy(io.Discard, hr) // we don't care
-	}
-	if c.Err() != nil {
-		return nil, ctx.WrapError(c, c.Err())
+	var data []byte
+	for partial := false; ; partial = true {
+		part, fin, err := this.readFrame(c, partial)
+		if err != nil {
+			return nil, err
+		}
+		data = append(data, part...)
+		if fin {
+			break
+		}
 	}
+	log.Debugf(c, "ws recv: %s", data)
+	return data, nil
+}
 
-	switch r.PayloadType() {
-	case websocket.ContinuationFrame:
-		return nil, ctx.NewErrorf(c, "unsupported continuation")
-	case websocket.TextFrame, websocket.BinaryFrame:
-	case websocket.CloseFrame:
-		// TODO read message and debug?
-		return nil, ctx.WrapError(c, io.EOF)
-	case websocket.PingFrame, websocket.PongFrame:
-		panic("unsupported ping-pong")
-		/*
-			            // TODO implements this
-						b := make([]byte, maxControlFramePayloadLength)
-						n, err := io.ReadFull(frame, b)
-						if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-							return nil, err
-						}
-						io.Copy(ioutil.Discard, frame)
-						if frame.PayloadType() == PingFrame {
-							if _, err := handler.WritePong(b[:n]); err != nil {
-								return nil, err
-							}
-						}
-						return nil, nil
-		*/
-	default:
-		panic(fmt.Sprintf("unexpected type %b", r.PayloadType()))
-	}
+// read the next data frame (a continuation if partial), answering the pings in between
+func (this *wsImpl) readFrame(c ctx.C, partial bool) (data []byte, fin bool, err error) {
+	for {
+		r, err := this.conn.NewFrameReader()
+		if err != nil {
+			return nil, false, err
+		}
+		var head []byte
+		if hr := r.HeaderReader(); hr != nil {
+			head, _ = io.ReadAll(hr) // from memory
+		}
+		fin := len(head) == 0 || head[0]&0x80 != 0
+		if c.Err() != nil {
+			return nil, false, ctx.WrapError(c, c.Err())
+		}
 
-	data, err := io.ReadAll(r)
-	if err != nil {
-		return nil, ctx.WrapError(c, err)
+		switch r.PayloadType() {
+		case websocket.ContinuationFrame:
+			if !partial {
+				return nil, false, ctx.NewErrorf(c, "unexpected continuation")
+			}
+		case websocket.TextFrame, websocket.BinaryFrame:
+			if partial {
+				return nil, false, ctx.NewErrorf(c, "expected continuation")
+			}
+		case websocket.CloseFrame, websocket.PingFrame, websocket.PongFrame:
+		default:
+			return nil, false, ctx.NewErrorf(c, "unexpected type %b", r.PayloadType())
+		}
+
+		size := r.Len() - len(head)
+		r, err = this.conn.HandleFrame(r) // EOF for a close, nil after a ping or pong
+		if err != nil {
+			// TODO read message and debug?
+			return nil, false, ctx.WrapError(c, err)
+		}
+		if r == nil {
+			continue
+		}
+		data, err := io.ReadAll(r)
+		if err != nil {
+			return nil, false, ctx.WrapError(c, err)
+		}
+		if len(data) != size {
+			return nil, false, ctx.WrapError(c, io.ErrUnexpectedEOF)
+		}
+		return data, fin, nil
 	}
-	log.Debugf(c, "ws recv: %s", data)
-	return data, nil
 }
 
 func (this *wsImpl) Close(c ctx.C, status int) error {
-- 
2.43.0


From ae949f2a03784425bb668dbd340439a2c4b61b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:41 +0000
Subject: [PATCH 54/98] fix: websocket messages share the lock of the control
 frames

---
 http/ws/ws.go | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index fc6ebc0..8777af5 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -2,7 +2,6 @@ package ws
 
 import (
 	"io"
-	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
@@ -29,7 +28,6 @@ type impl interface {
 // implementation using /x/net/websocket
 
 type wsImpl struct {
-	m    sync.Mutex
 	conn *websocket.Conn
 }
 
@@ -37,26 +35,12 @@ var _ impl = &wsImpl{}
 
 func (this *wsImpl) Write(c ctx.C, n enc.Node) error {
 	j := enc.JSON{}.Encode(c, n)
-	this.m.Lock()
-	defer this.m.Unlock()
 	//log.Debugf(c, "ws.write: %s", j)
-	return this.write(c, j)
-}
-
-// note this is not safe for multiple go routines
-func (this *wsImpl) write(c ctx.C, data []byte) error {
-	w, err := this.conn.NewFrameWriter(websocket.TextFrame)
-	if err != nil {
-		return ctx.WrapError(c, err)
-	}
-	ct, err := w.Write(data)
+	// Note: this holds the same lock used for the control frames
+	err := websocket.Message.Send(this.conn, string(j))
 	if err != nil {
 		return ctx.WrapError(c, err)
 	}
-	if ct != len(data) {
-		return ctx.NewErrorf(c, "can't write all data: %d < %d", ct, len(data))
-	}
-	//log.Debugf(c, "ws sent: %s", data)
 	return nil
 }
 
-- 
2.43.0


From a6c052ace94f42a63b5457ddc009562a40c1e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:44 +0000
Subject: [PATCH 55/98] fix: a close frame closes its channel

---
 http/ws/rpc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/http/ws/rpc.go b/http/ws/rpc.go
index 4ccb874..3a8c48e 100644
--- a/http/ws/rpc.go
+++ b/http/ws/rpc.go
@@ -43,6 +43,12 @@ func (this *RpcConn) onFrame(c ctx.C, f Frame) error {
 	switch f.Type {
 	case "close":
 		// WAIT FOR STUFF?
+		if ch := this.byChan.Get(f.Channel); ch != nil {
+			return ch.Close(c)
+		}
+		if f.Channel != "" {
+			return nil // closed already
+		}
 		return this.Close(c, 1000)
 	case "new", "open":
 		if fn := this.h.byPath.Get(f.Path); fn != nil {
-- 
2.43.0


From 202aa36507c145553f2f4374e1aee3d0e85e5d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:47 +0000
Subject: [PATCH 56/98] fix: report when Init() fails, and don't open the
 channel

---
 http/ws/handler.go | 12 +++++++++++-
 http/ws/reflect.go |  6 +++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/http/ws/handler.go b/http/ws/handler.go
index 195c46d..0d7138a 100644
--- a/http/ws/handler.go
+++ b/http/ws/handler.go
@@ -125,10 +125,20 @@ func (this *RpcHandler) Register(c ctx.C, obj any) error {
 			ID:     f.Channel,
 		}
 		conn.byChan.Store(ch.ID, ch)
-		obj := b.build(C{
+		obj, err := b.build(C{
 			C:  c,
 			ch: ch,
 		}, f.Data)
+		if err != nil {
+			conn.byChan.Delete(ch.ID)
+			log.Warnf(c, "can't open %q: %v", b.name, err)
+			return conn.Send(c, Frame{
+				Channel: ch.ID,
+				Path:    f.Path,
+				Type:    "error",
+				Data:    enc.String(err.Error()),
+			})
+		}
 		log.Debugf(c, "new %+v", obj)
 		return nil
 	})
diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 7f149f6..926195b 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -20,7 +20,7 @@ type builder struct {
 }
 
 // init a new object, and bind it's methods to the channel
-func (this builder) build(c C, req enc.Node) any {
+func (this builder) build(c C, req enc.Node) (any, error) {
 	v := reflect.New(this.structType)
 	for _, c := range this.fields {
 		//log.Debugf(nil, "set %v", c.value)
@@ -30,7 +30,7 @@ func (this builder) build(c C, req enc.Node) any {
 	if this.constructor.methodName != "" {
 		err := this.constructor.call(c, v, req)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
@@ -58,7 +58,7 @@ func (this builder) build(c C, req enc.Node) any {
 		}
 	}
 
-	return v.Interface()
+	return v.Interface(), nil
 }
 
 type method struct {
-- 
2.43.0


From 3b2f129207733e92d0130452ff7842cf85dd1838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:23 +0000
Subject: [PATCH 57/98] fix: register objects by value

---
 http/ws/reflect.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 926195b..74f68c1 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -103,10 +103,12 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 	log.Debugf(c, "ws.inspect(%T %v)", obj, obj)
 	origVal := reflect.ValueOf(obj)
 	switch origVal.Kind() {
-	case reflect.Pointer:
-	case reflect.Struct:
-		origVal = origVal.Addr() // make sure it's a pointer
-	default:
+	case reflect.Struct: // make sure it's a pointer
+		v := reflect.New(origVal.Type())
+		v.Elem().Set(origVal)
+		origVal = v
+	}
+	if origVal.Kind() != reflect.Pointer || origVal.IsNil() || origVal.Elem().Kind() != reflect.Struct {
 		return ctx.NewErrorf(c, "expected struct or *struct, got %T", obj)
 	}
 	this.structType = origVal.Type().Elem()
-- 
2.43.0


From ddd8808b405ff027a9f44a2a48bb85fd31364fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:26 +0000
Subject: [PATCH 58/98] fix: only the exported fields are copied

---
 http/ws/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 74f68c1..d127104 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -121,7 +121,7 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 	for i := 0; i < origVal.Elem().NumField(); i++ {
 		i := i
 		fv := origVal.Elem().Field(i)
-		if !fv.IsZero() {
+		if origVal.Elem().Type().Field(i).IsExported() && !fv.IsZero() {
 			this.fields = append(this.fields, fieldInit{
 				index: i,
 				value: fv,
-- 
2.43.0


From 6d495f5fd301d37d70c07f2ba24d93df53d8541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:29 +0000
Subject: [PATCH 59/98] fix: lower case names which are not ASCII

---
 http/ws/reflect.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index d127104..f5d5bdb 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -2,7 +2,8 @@ package ws
 
 import (
 	"reflect"
-	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
@@ -166,8 +167,9 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 }
 
 func toLowerFirst(s string) string {
-	if len(s) == 0 {
+	r, size := utf8.DecodeRuneInString(s)
+	if size == 0 {
 		return ""
 	}
-	return strings.ToLower(s[0:1]) + s[1:]
+	return string(unicode.ToLower(r)) + s[size:]
 }
-- 
2.43.0


From d408471190d421517590e0297c80056f3d2f4d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:36 +0000
Subject: [PATCH 60/98] fix: the ws test client has no data races

---
 http/ws/test.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/http/ws/test.go b/http/ws/test.go
index 565a8f0..904579c 100644
--- a/http/ws/test.go
+++ b/http/ws/test.go
@@ -2,10 +2,12 @@ package ws
 
 import (
 	"io"
+	"sync/atomic"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
 	"github.com/Aize-Public/forego/enc"
+	"github.com/Aize-Public/forego/utils/sync"
 	"github.com/google/uuid"
 )
 
@@ -15,15 +17,15 @@ type TestClient struct {
 }
 
 type testWS struct {
-	byChan map[string]func(ctx.C, Frame) error
+	byChan sync.Map[string, func(ctx.C, Frame) error]
 	inbox  chan Frame
-	closed bool
+	closed atomic.Bool
 }
 
 var _ impl = &testWS{}
 
 func (this *testWS) Close(c ctx.C, reason int) error {
-	this.closed = true
+	this.closed.Store(true)
 	return nil
 }
 
@@ -41,7 +43,7 @@ func (this *testWS) Read(c ctx.C) (enc.Node, error) {
 }
 
 func (this *testWS) Write(c ctx.C, n enc.Node) error {
-	if this.closed {
+	if this.closed.Load() {
 		return io.ErrClosedPipe
 	}
 	var f Frame
@@ -49,7 +51,7 @@ func (this *testWS) Write(c ctx.C, n enc.Node) error {
 		return ctx.WrapError(c, err)
 	}
 
-	h := this.byChan[f.Channel]
+	h := this.byChan.Get(f.Channel)
 	if h == nil {
 		return ctx.NewErrorf(c, "unknown channel %q", f.Channel)
 	}
@@ -59,8 +61,7 @@ func (this *testWS) Write(c ctx.C, n enc.Node) error {
 // create a local websocket loop and return a client connected to it
 func (this *RpcHandler) NewTest(c ctx.C) *TestClient {
 	ws := &testWS{
-		byChan: map[string]func(ctx.C, Frame) error{},
-		inbox:  make(chan Frame, 10),
+		inbox: make(chan Frame, 10),
 	}
 	conn := this.newRpcConn(ws)
 	go conn.Loop(c) // nolint
@@ -92,7 +93,7 @@ func (this *TestClient) Close(c ctx.C) error {
 func (this *TestClient) Open(c ctx.C, path string, data any, onData func(ctx.C, Frame) error) (call func(ctx.C, string, any) error, err error) {
 	chID := uuid.NewString()
 	ech := make(chan error, 1)
-	this.ws.byChan[chID] = func(c ctx.C, f Frame) error {
+	this.ws.byChan.Store(chID, func(c ctx.C, f Frame) error {
 		switch f.Type {
 		case "return", "error":
 			var err error
@@ -112,7 +113,7 @@ func (this *TestClient) Open(c ctx.C, path string, data any, onData func(ctx.C,
 			}
 		}
 		return nil
-	}
+	})
 	return func(c ctx.C, path string, data any) error {
 			err := this.Send(c, Frame{
 				Channel: chID,
@@ -144,14 +145,14 @@ func (this *TestClient) NewContext(c ctx.C, size int) (C, <-chan Frame) {
 		Conn: this.conn,
 		ID:   uuid.NewString(),
 	}
-	this.ws.byChan[ch.ID] = func(c ctx.C, f Frame) error {
+	this.ws.byChan.Store(ch.ID, func(c ctx.C, f Frame) error {
 		select {
 		case outbox <- f:
 			return nil
 		case <-c.Done():
 			return c.Err()
 		}
-	}
+	})
 	return C{
 		C:  c,
 		ch: &ch,
-- 
2.43.0


From 262de5341f60837a87dd5c635325c196bef6ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 61/98] fix: the ws test client doesn't report an error twice

---
 http/ws/test.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http/ws/test.go b/http/ws/test.go
index 904579c..0bc9381 100644
--- a/http/ws/test.go
+++ b/http/ws/test.go
@@ -94,8 +94,8 @@ func (this *TestClient) Open(c ctx.C, path string, data any, onData func(ctx.C,
 	chID := uuid.NewString()
 	ech := make(chan error, 1)
 	this.ws.byChan.Store(chID, func(c ctx.C, f Frame) error {
-		switch f.Type {
-		case "return", "error":
+		// Note: a failed function returns its error, and then sends it as an "error" without path
+		if f.Type == "return" || f.Type == "error" && f.Path != "" {
 			var err error
 			if f.Data != nil {
 				err = ctx.NewErrorf(c, "remote: %s", f.Data)
-- 
2.43.0


From 65f90b43111af10b6aa79afc863139e6310b44dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:29 +0000
Subject: [PATCH 62/98] fix: sending what can not be marshalled is an error

---
 http/ws/channel.go | 6 +++++-
 http/ws/conn.go    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/http/ws/channel.go b/http/ws/channel.go
index 27ff6da..f007e13 100644
--- a/http/ws/channel.go
+++ b/http/ws/channel.go
@@ -77,10 +77,14 @@ type C struct {
 }
 
 func (c C) Reply(path string, obj any) error {
+	n, err := enc.Marshal(c, obj)
+	if err != nil {
+		return err
+	}
 	return c.ch.Conn.Send(c, Frame{
 		Channel: c.ch.ID,
 		Path:    path,
-		Data:    enc.MustMarshal(c, obj),
+		Data:    n,
 	})
 }
 
diff --git a/http/ws/conn.go b/http/ws/conn.go
index 58536d6..65eddfa 100644
--- a/http/ws/conn.go
+++ b/http/ws/conn.go
@@ -70,5 +70,9 @@ func (this *Conn) Loop(c ctx.C) error {
 }
 
 func (this *Conn) Send(c ctx.C, obj any) error {
-	return this.ws.Write(c, enc.MustMarshal(c, obj))
+	n, err := enc.Marshal(c, obj)
+	if err != nil {
+		return err
+	}
+	return this.ws.Write(c, n)
 }
-- 
2.43.0


From 835bacfb3f133e4e0ae076907b00a0a0a478a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 63/98] fix: nested error gates don't swallow each other's
 error

---
 utils/errors.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utils/errors.go b/utils/errors.go
index 541321e..7587511 100644
--- a/utils/errors.go
+++ b/utils/errors.go
@@ -12,13 +12,15 @@ func (err EOD) Error() string { return "EOD" }
 
 // call the given function passing an error, if the error is returned back (wrapped or not) it will be ignored
 func ErrorGate(f func(err error) error) error {
-	err := f(errGate{})
-	if errors.Is(err, errGate{}) {
+	gate := &errGate{}
+	err := f(gate)
+	if errors.Is(err, gate) {
 		return nil
 	}
 	return err
 }
 
-type errGate struct{}
+// Note: not an empty struct, each gate needs its own address
+type errGate struct{ _ byte }
 
-func (err errGate) Error() string { return "Error: should have been trapped by ErrorGate()" }
+func (err *errGate) Error() string { return "Error: should have been trapped by ErrorGate()" }
-- 
2.43.0


From 5d98372e723de8e61d9b78cf5ed185a087d32811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 64/98] fix: a logger or helper set on a context doesn't change
 its parents

---
 ctx/log/log.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index ea64de9..7816c5f 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -75,9 +75,9 @@ func wrapSlogLogger(l *slog.Logger) LogFunc {
 // Returns a new context with the custom LogFunc attached,
 // but without handling of tags and Loggable arguments.
 func WithLogFunc(c ctx.C, l LogFunc) ctx.C {
-	conf := extractConfig(c)
+	conf := *extractConfig(c) // a copy, the parents keep theirs
 	conf.logFunc = l
-	return withConfig(c, conf)
+	return withConfig(c, &conf)
 }
 
 // Returns a new context with the specified helper func attached,
@@ -85,9 +85,9 @@ func WithLogFunc(c ctx.C, l LogFunc) ctx.C {
 // Useful for tests if you do logging with the t.Logf func (wrapped in a LogFunc),
 // and add the t.Helper func with this - ensuring that the relevant src line is logged.
 func WithHelper(c ctx.C, h func()) ctx.C {
-	conf := extractConfig(c)
+	conf := *extractConfig(c) // a copy, the parents keep theirs
 	conf.helper = h
-	return withConfig(c, conf)
+	return withConfig(c, &conf)
 }
 
 // Creates a slog JSON logger with a certain default configuration, with the default minimum log level of debug
-- 
2.43.0


From 7672c095f096365626ac0539ff3e0fbc0640241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:42 +0000
Subject: [PATCH 65/98] fix: a detached context has no cause of cancellation

---
 ctx/detach.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/ctx/detach.go b/ctx/detach.go
index a1a9efb..4ee7619 100644
--- a/ctx/detach.go
+++ b/ctx/detach.go
@@ -1,28 +1,8 @@
 package ctx
 
-import "time"
+import "context"
 
 // create a new context which inherits all the Values from the parent, but does NOT propagate cancels or timeouts
 func Detach(c C) C {
-	return detachedC{c}
-}
-
-type detachedC struct {
-	parent C
-}
-
-func (this detachedC) Value(key any) any {
-	return this.parent.Value(key)
-}
-
-func (this detachedC) Deadline() (time.Time, bool) {
-	return time.Time{}, false
-}
-
-func (this detachedC) Done() <-chan struct{} {
-	return nil
-}
-
-func (this detachedC) Err() error {
-	return nil
+	return context.WithoutCancel(c)
 }
-- 
2.43.0


From c5160300c09567b1929a7d10cf910e27955d1f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:46 +0000
Subject: [PATCH 66/98] fix: a tag keeps its own copy of the JSON

---
 ctx/tags.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ctx/tags.go b/ctx/tags.go
index f5b91ad..582d050 100644
--- a/ctx/tags.go
+++ b/ctx/tags.go
@@ -15,17 +15,20 @@ type tagC struct {
 // Note(oha): if the same key is added twice, it will be found twice later with the Range
 func WithTag(c C, key string, val any) C {
 	var j []byte
-	switch val := val.(type) {
+	switch v := val.(type) {
 	case json.RawMessage:
-		j = val
+		j = v
 	case JSON:
-		j = val
+		j = v
 	case []byte:
-		if json.Valid(val) {
-			j = val
-		}
+		j = v
 	default:
 	}
+	if json.Valid(j) {
+		j = append([]byte{}, j...) // the caller might reuse it
+	} else {
+		j = nil
+	}
 	if j == nil {
 		var err error
 		j, err = json.Marshal(val)
-- 
2.43.0


From 9c717c94f3b5347732dfad831a378fe70f316695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 67/98] fix: a tag named level or msg is logged as it is

---
 ctx/log/log.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 7816c5f..d782d9d 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -94,10 +94,14 @@ func WithHelper(c ctx.C, h func()) ctx.C {
 func NewDefaultSlogLogger(out io.Writer) *slog.Logger {
 	DefaultLoggerLevel.Set(slog.LevelDebug)
 	return slog.New(slog.NewJSONHandler(out, &slog.HandlerOptions{Level: DefaultLoggerLevel, ReplaceAttr: func(groups []string, a slog.Attr) slog.Attr {
+		if len(groups) > 0 {
+			return a // tags might have any name
+		}
 		switch a.Key {
 		case slog.LevelKey:
-			level := a.Value.Any().(slog.Level)
-			return slog.String("level", strings.ToLower(level.String()))
+			if level, ok := a.Value.Any().(slog.Level); ok {
+				return slog.String("level", strings.ToLower(level.String()))
+			}
 		case slog.MessageKey:
 			a.Key = "message"
 		}
-- 
2.43.0


From 71a314d44fc382ef7ae9b52945794e358c9524b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:08 +0000
Subject: [PATCH 68/98] fix: logging does not change the caller's arguments

---
 ctx/log/log.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index d782d9d..93c48a5 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -179,6 +179,7 @@ func extractConfig(c ctx.C) *config {
 }
 
 func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
+	args = append([]any{}, args...) // they might be replaced, and they belong to the caller
 	errs := []map[string]any{}
 	for i := 0; i < len(args); i++ {
 		switch arg := args[i].(type) {
-- 
2.43.0


From 2a6e34720cbe43feb79d23dfe4e3047cbd7e7557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 69/98] fix: an argument which panics does not break the log
 call

---
 ctx/log/log.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 93c48a5..1abaeea 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -185,10 +185,10 @@ func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
 		switch arg := args[i].(type) {
 		case Loggable:
 			// if it implements Loggable, replace it with the return value and allow manipulation of tags
-			args[i] = arg.LogAs(tags)
+			args[i] = logAs(arg, tags)
 
 		case error:
-			m := map[string]any{"error": arg.Error()}
+			m := map[string]any{"error": errorText(arg)}
 			var err ctx.Error
 			if errors.As(arg, &err) {
 				m["stack"] = err.Stack
@@ -207,6 +207,26 @@ func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
 	return fmt.Sprintf(f, args...)
 }
 
+// calls LogAs(), a panic goes in the message like fmt does (the argument itself can't, it might be redacted)
+func logAs(arg Loggable, tags *Tags) (res any) {
+	defer func() {
+		if r := recover(); r != nil {
+			res = fmt.Sprintf("%%!v(PANIC=LogAs method: %v)", r)
+		}
+	}()
+	return arg.LogAs(tags)
+}
+
+// calls Error(), and if that panics (e.g. nil pointers) use the same text as fmt
+func errorText(err error) (text string) {
+	defer func() {
+		if recover() != nil {
+			text = fmt.Sprint(err)
+		}
+	}()
+	return err.Error()
+}
+
 func caller(above int) string {
 	_, file, line, _ := runtime.Caller(above + 1)
 	return fmt.Sprintf("%s:%d", file, line)
-- 
2.43.0


From 183a93c09cd58d173109f0bdd3450b2bbe404bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:17 +0000
Subject: [PATCH 70/98] fix: ctx.JSON copies what it is unmarshaled from

---
 ctx/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctx/error.go b/ctx/error.go
index 641767d..2d58c31 100644
--- a/ctx/error.go
+++ b/ctx/error.go
@@ -81,7 +81,7 @@ func (this JSON) MarshalJSON() ([]byte, error) {
 	return this, nil
 }
 func (this *JSON) UnmarshalJSON(j []byte) error {
-	*this = j
+	*this = append(JSON{}, j...) // the caller reuses it
 	return nil
 }
 func (this JSON) String() string {
-- 
2.43.0


From f28e00cf2147cef6bef12437e60cf49a9fd83d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:12 +0000
Subject: [PATCH 71/98] fix: config fields of a named bool or int type

---
 config/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 0e98501..f7537ef 100644
--- a/config/config.go
+++ b/config/config.go
@@ -96,13 +96,13 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 		default:
 			return ctx.NewErrorf(nil, "can't convert to boobool field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(v))
+		dest.SetBool(v)
 	case reflect.Int:
 		i, err := strconv.Atoi(val)
 		if err != nil {
 			return ctx.NewErrorf(nil, "can't convert to int field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(i))
+		dest.SetInt(int64(i))
 	case reflect.String:
 		v := reflect.ValueOf(val).Convert(dest.Type())
 		dest.Set(v)
-- 
2.43.0


From 4c182348260f3701fa3f583a5d5a4d90a3bd310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:14 +0000
Subject: [PATCH 72/98] fix: config maps with keys of any supported type

---
 config/config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index f7537ef..2b0011d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -132,7 +132,12 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 				if err != nil {
 					return err
 				}
-				m.SetMapIndex(reflect.ValueOf(key), v)
+				k := reflect.Indirect(reflect.New(dest.Type().Key()))
+				err = unmarshalText(c, k, name+"[]", key)
+				if err != nil {
+					return err
+				}
+				m.SetMapIndex(k, v)
 			}
 			dest.Set(m)
 		}
-- 
2.43.0


From a561c8c97692caec1219e92ed8db037e40d5bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 73/98] fix: config does not write in the caller's array

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 2b0011d..9de1c54 100644
--- a/config/config.go
+++ b/config/config.go
@@ -109,7 +109,7 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 	case reflect.Slice:
 		if val != "" {
 			parts := strings.Split(val, ",")
-			x := dest
+			x := dest.Slice3(0, dest.Len(), dest.Len()) // never append in the array of the caller
 			for _, el := range parts {
 				v := reflect.Indirect(reflect.New(dest.Type().Elem()))
 				err := unmarshalText(c, v, name+"[]", el)
-- 
2.43.0


From 5a1ea8a6f6504e59fd168b0d5467a265a4a005e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:34 +0000
Subject: [PATCH 74/98] fix: config reports what it can't fill instead of a
 panic

---
 config/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 9de1c54..6e96279 100644
--- a/config/config.go
+++ b/config/config.go
@@ -19,10 +19,10 @@ func Must[T any](c ctx.C, cfg T, f func(string) string) T {
 }
 
 func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
-	if reflect.TypeOf(cfg).Kind() != reflect.Struct {
+	v := reflect.ValueOf(&cfg).Elem()
+	if v.Kind() != reflect.Struct {
 		return cfg, ctx.NewErrorf(c, "expected struct, got %T", cfg)
 	}
-	v := reflect.ValueOf(&cfg).Elem()
 	t := v.Type()
 	for i := 0; i < v.NumField(); i++ {
 		ft := t.Field(i)
@@ -32,6 +32,9 @@ func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
 		}
 		parts := strings.Split(tag, ",")
 		key := parts[0]
+		if !ft.IsExported() {
+			return cfg, ctx.NewErrorf(c, "can't set unexported field %q for %q", ft.Name, key)
+		}
 
 		var defVal string
 		var hasDef bool
-- 
2.43.0


From 42b6e315838d1644781981cf44cf7587b14bcb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:36 +0000
Subject: [PATCH 75/98] fix: config errors tell which one is wrong

---
 config/config.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/config/config.go b/config/config.go
index 6e96279..48a506e 100644
--- a/config/config.go
+++ b/config/config.go
@@ -76,14 +76,14 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 	v := dest.Addr().Interface()
 	switch v := v.(type) {
 	case UnmarshalText:
-		return v.UnmarshalText(c, val)
+		return named(c, name, v.UnmarshalText(c, val))
 	case encoding.TextUnmarshaler:
 		if val != "" {
-			return ctx.WrapError(c, v.UnmarshalText([]byte(val)))
+			return named(c, name, v.UnmarshalText([]byte(val)))
 		}
 	case json.Unmarshaler:
 		if val != "" {
-			return ctx.WrapError(c, v.UnmarshalJSON([]byte(val)))
+			return named(c, name, v.UnmarshalJSON([]byte(val)))
 		}
 	default:
 		//fmt.Printf("OHA %T\n", v)
@@ -145,7 +145,15 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 			dest.Set(m)
 		}
 	default:
-		return ctx.NewErrorf(nil, "unsupported field type: %T", v)
+		return ctx.NewErrorf(nil, "unsupported field type for %s: %T", name, v)
 	}
 	return nil
 }
+
+// adds to the error, if any, the name of the config
+func named(c ctx.C, name string, err error) error {
+	if err == nil {
+		return nil
+	}
+	return ctx.NewErrorf(c, "can't convert field %s: %w", name, err)
+}
-- 
2.43.0


From 73991ffd8ec075dbbb0010484e5860e3fd3bb729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:50 +0000
Subject: [PATCH 76/98] fix: equal maps have equal strings

---
 enc/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index 5182050..8b50c97 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -35,6 +36,7 @@ func (this Map) String() string {
 	for k, v := range this {
 		p = append(p, fmt.Sprintf("%q:%s", k, v))
 	}
+	sort.Strings(p) // equal maps give equal strings
 	return "{" + strings.Join(p, ", ") + "}"
 }
 
@@ -43,6 +45,7 @@ func (this Map) GoString() string {
 	for k, v := range this {
 		p = append(p, fmt.Sprintf("%q:%s", k, v))
 	}
+	sort.Strings(p) // equal maps give equal strings
 	return "enc.Map{" + strings.Join(p, ", ") + "}"
 }
 
-- 
2.43.0


From 358925c57da6c7a52af2186364f980c7f2141f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:53 +0000
Subject: [PATCH 77/98] fix: a storage filter without a value compares with
 null

---
 storage/keyvalue.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index 9fc0d51..75e46c2 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -100,12 +100,16 @@ func (this Filter) Check(c ctx.C, val enc.Map) (bool, error) {
 	if v == nil {
 		v = enc.Nil{}
 	}
-	log.Debugf(c, "Check(%q %q %v)", v, this.Cmp, this.Val)
+	want := this.Val
+	if want == nil {
+		want = enc.Nil{}
+	}
+	log.Debugf(c, "Check(%q %q %v)", v, this.Cmp, want)
 	switch this.Cmp {
 	case Equal:
-		return v.GoString() == this.Val.GoString(), nil
+		return v.GoString() == want.GoString(), nil
 	case NotEqual:
-		return v.GoString() != this.Val.GoString(), nil
+		return v.GoString() != want.GoString(), nil
 	default:
 		return false, ctx.NewErrorf(c, "unsupported cmp operator: %q", this.Cmp)
 	}
-- 
2.43.0


From bb46dd80e7fa4a347a88f424e98bbc1cb19279e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:29 +0000
Subject: [PATCH 78/98] fix: a hit makes the LRU entry the most recent

---
 utils/caches/lru.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index dd3e596..48dca71 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -64,10 +64,10 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 
 	i, exists := this.heap.index[k]
 	if exists {
-		entry := this.heap.list[i]
-		entry.last = time.Now()
+		v := this.heap.list[i].val
+		this.heap.list[i].last = time.Now()
 		heap.Fix(this.heap, i)
-		return entry.val, HIT, nil
+		return v, HIT, nil
 	}
 
 	// TODO(oha): this is wrong, we shouldn't hold a lock onMiss
-- 
2.43.0


From 1e875b02b800ab134096eb134e35fb3974ba5428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:33 +0000
Subject: [PATCH 79/98] fix: a request cache fetches once for concurrent
 requests

---
 utils/caches/request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/caches/request.go b/utils/caches/request.go
index 227c5c3..e7247b9 100644
--- a/utils/caches/request.go
+++ b/utils/caches/request.go
@@ -44,8 +44,8 @@ func (this *RequestCache[K, V]) Request(c ctx.C, key K) (V, HitMiss, error) {
 	defer e.m.Unlock()
 
 	//log.Debugf(c, "ReqCache[%v] %v expired %v ago", key, hit, time.Since(e.expire))
-	// not a miss, and not expired
-	if hit != MISS && time.Until(e.expire) >= 0 {
+	// not expired (a new one is, unless somebody else fetched it while we were waiting for the lock)
+	if time.Until(e.expire) >= 0 {
 		if e.err != nil {
 			return e.V, HIT, e.err
 		} else {
-- 
2.43.0


From 793ca288985e17c204afac417a05ba7a20701160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:14 +0000
Subject: [PATCH 80/98] fix: ranging over a sync.Map with nil interfaces

---
 utils/sync/map.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/utils/sync/map.go b/utils/sync/map.go
index 8ec73ce..81305ae 100644
--- a/utils/sync/map.go
+++ b/utils/sync/map.go
@@ -91,15 +91,24 @@ func (this *Map[K, V]) Store(key K, val V) {
 
 func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 	this.m.Range(func(key, val any) bool {
-		return f(key.(K), val.(V))
+		return f(cast[K](key), cast[V](val))
 	})
 }
 
+// nil interfaces can't be asserted to any type
+func cast[T any](v any) T {
+	if v == nil {
+		var zero T
+		return zero
+	}
+	return v.(T)
+}
+
 // like Range, but using errors not bools
 func (this *Map[K, V]) RangeErr(f func(key K, val V) error) error {
 	var err error
 	this.m.Range(func(key, val any) bool {
-		err = f(key.(K), val.(V))
+		err = f(cast[K](key), cast[V](val))
 		return err == nil
 	})
 	return err
-- 
2.43.0


From d7dda2e3d8e92fa6c80edef24a018f13e4e84aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:58 +0000
Subject: [PATCH 81/98] fix: TryLock() always gets a free lock

---
 utils/sync/mutex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/sync/mutex.go b/utils/sync/mutex.go
index 89f3958..b746af8 100644
--- a/utils/sync/mutex.go
+++ b/utils/sync/mutex.go
@@ -40,6 +40,9 @@ func (m *MetricsMutex) Unlock() {
 
 // attempt to obtain a lock to the given Mutex, or return false if timeout
 func (m *Mutex) TryLock(d time.Duration) bool {
+	if m.Mutex.TryLock() {
+		return true // it's free, no matter how short the timeout is
+	}
 	t := time.NewTimer(d)
 	defer t.Stop()
 	// TODO maybe we can use a channel internally instead of a chan + lock?
-- 
2.43.0


From 380a2010a88ab41fdf135916543d721556864f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 82/98] fix: source excerpts of calls with fewer arguments or
 empty functions

---
 utils/ast/call_args.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index 1901a34..12543db 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -38,7 +38,7 @@ func (a Arg) String() string {
 // Helper: returns the source code that assigned the first argument or the argument source code or some other messages
 func Assignment(above, arg int) string {
 	a, fl, aerr := Caller(above + 1)
-	if aerr != nil {
+	if aerr != nil || arg >= len(a.Args) { // e.g. fewer arguments in f(g()) if g() returns many
 		return fl
 		//return fmt.Sprintf("<can't parse: %v>", aerr)
 	} else {
@@ -135,6 +135,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
+							if len(a.Body.List) == 0 {
+								break // keep the whole literal
+							}
 							start := a.Body.List[0].Pos()
 							end := a.Body.List[len(a.Body.List)-1].End()
 							arg.Src = this.Src(start, end)
@@ -163,6 +166,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
+							if len(a.Body.List) == 0 {
+								break // keep the whole literal
+							}
 							start := a.Body.List[0].Pos()
 							end := a.Body.List[len(a.Body.List)-1].End()
 							arg.Src = this.Src(start, end) // `func() { BODY }` => `BODY`
-- 
2.43.0


From bdf66bed5c9dc08008b95dd510a0a6d13ebf1445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:00 +0000
Subject: [PATCH 83/98] fix: source excerpts of calls over many lines, and of
 generic calls

---
 utils/ast/call_args.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index 12543db..17f907f 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -117,11 +117,22 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 		}
 
 	case *ast.CallExpr:
-		line := this.Line(n.Pos())
+		fun := n.Fun
+		pos := fun.Pos()
+		switch f := fun.(type) { // explicit type arguments
+		case *ast.IndexExpr:
+			fun = f.X
+		case *ast.IndexListExpr:
+			fun = f.X
+		}
+		if sel, ok := fun.(*ast.SelectorExpr); ok {
+			pos = sel.Sel.Pos() // where the call is for the runtime
+		}
+		line := this.Line(pos)
 		//fmt.Printf("%d: %+v\n", line, n)
 		if line == this.stack.Line {
 			//log.Printf("at :%d found %T %+v", line, n.Fun, n.Fun)
-			switch f := n.Fun.(type) {
+			switch f := fun.(type) {
 			case *ast.Ident:
 				//log.Printf("Ident name: %q == %q", f.Name, this.fname)
 				if f.Name == this.fname {
-- 
2.43.0


From e7381a47a6acc1f23e4efd802904a1111388a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:03 +0000
Subject: [PATCH 84/98] fix: source excerpts of calls with another of the same
 name in the arguments

---
 utils/ast/call_args.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index 17f907f..79eda9f 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -66,7 +66,9 @@ func Caller(above int) (call *Call, fl string, err error) {
 		fname: fname,
 		stack: stack,
 		found: func(found Call) {
-			call = &found
+			if call == nil { // the arguments might contain a call to something of the same name
+				call = &found
+			}
 		},
 	}, f)
 
-- 
2.43.0


From d15d0291c763f14b5e16b5ea0ab59e8fa85c69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:38 +0000
Subject: [PATCH 85/98] fix: the assignment reported for a variable is the one
 in force

---
 utils/ast/call_args.go | 172 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 159 insertions(+), 13 deletions(-)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index 79eda9f..e0956ea 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -61,6 +61,7 @@ func Caller(above int) (call *Call, fl string, err error) {
 	}
 
 	ast.Walk(visitor{
+		vars:  assignedVars(f),
 		fset:  fset,
 		src:   src,
 		fname: fname,
@@ -79,7 +80,8 @@ func Caller(above int) (call *Call, fl string, err error) {
 }
 
 type visitor struct {
-	scope map[string]string
+	scope map[any]string // what is known to be in each variable at this point
+	vars  map[any]*assigned
 	fset  *token.FileSet
 	src   []byte
 	fname string
@@ -101,22 +103,67 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 	//log.Printf("visit(%+v)", n)
 	switch n := n.(type) {
 
-	case *ast.BlockStmt:
+	case *ast.FuncLit:
+		this = this.inner(n)
+		for v := range this.scope {
+			if this.vars[v].times > 1 {
+				delete(this.scope, v) // it might be called after other assignments
+			}
+		}
+
+	case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
 		//fmt.Printf("block: %d, %d\n", n.Lbrace, n.Rbrace)
-		m := map[string]string{}
-		for k, v := range this.scope {
-			m[k] = v
+		this = this.inner(n)
+
+	case *ast.IfStmt:
+		if n.Init != nil {
+			ast.Walk(this, n.Init)
+		}
+		ast.Walk(this, n.Cond)
+		ast.Walk(this, n.Body)
+		if n.Else != nil {
+			ast.Walk(this.inner(n.Else), n.Else)
 		}
-		this.scope = m
+		return nil
+
+	case *ast.ForStmt:
+		if n.Init != nil {
+			ast.Walk(this, n.Init)
+		}
+		for _, part := range []ast.Node{n.Cond, n.Post, n.Body} {
+			this.forget(part) // by the previous iterations
+		}
+		for _, part := range []ast.Node{n.Cond, n.Body, n.Post} {
+			if part != nil {
+				ast.Walk(this.inner(part), part)
+			}
+		}
+		return nil
+
+	case *ast.RangeStmt:
+		this.forget(n)
 
 	case *ast.AssignStmt:
-		src := this.Src(n.Rhs[0].Pos(), n.End())
-		for _, lh := range n.Lhs {
-			switch lh := lh.(type) {
-			case *ast.Ident:
-				this.scope[lh.Name] = src
+		for _, rh := range n.Rhs {
+			ast.Walk(this, rh)
+		}
+		for i, lh := range n.Lhs {
+			ast.Walk(this, lh)
+			id, ok := lh.(*ast.Ident)
+			switch {
+			case !ok:
+			case n.Tok != token.ASSIGN && n.Tok != token.DEFINE: // e.g. +=
+				delete(this.scope, varOf(id))
+			case len(n.Lhs) == len(n.Rhs):
+				this.scope[varOf(id)] = this.Src(n.Rhs[i].Pos(), n.Rhs[i].End())
+			default:
+				this.scope[varOf(id)] = this.Src(n.Rhs[0].Pos(), n.End())
 			}
 		}
+		return nil
+
+	case *ast.IncDecStmt, *ast.UnaryExpr:
+		this.forget(n)
 
 	case *ast.CallExpr:
 		fun := n.Fun
@@ -157,7 +204,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						default:
 							//log.Printf("a: %#v", a)
 						}
-						arg.Assignment = this.scope[arg.Src]
+						if id, ok := a.(*ast.Ident); ok {
+							arg.Assignment = this.scope[varOf(id)]
+						}
 						call.Args = append(call.Args, arg)
 					}
 					this.found(call)
@@ -186,7 +235,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 							end := a.Body.List[len(a.Body.List)-1].End()
 							arg.Src = this.Src(start, end) // `func() { BODY }` => `BODY`
 						}
-						arg.Assignment = this.scope[arg.Src]
+						if id, ok := a.(*ast.Ident); ok {
+							arg.Assignment = this.scope[varOf(id)]
+						}
 						call.Args = append(call.Args, arg)
 					}
 					this.found(call)
@@ -200,6 +251,101 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 				log.Printf("call_args: unexpected %T %s", f, src)
 			}
 		}
+		// the arguments are evaluated before the call, which might change what is shared with other functions
+		ast.Walk(this, n.Fun)
+		for _, a := range n.Args {
+			ast.Walk(this, a)
+		}
+		for v := range this.scope {
+			if this.vars[v].shared {
+				delete(this.scope, v)
+			}
+		}
+		return nil
+	}
+	return this
+}
+
+// visitor for something which might not be executed, or many times, or later
+func (this visitor) inner(n ast.Node) visitor {
+	m := map[any]string{}
+	for k, v := range this.scope {
+		m[k] = v
 	}
+	this.forget(n)
+	this.scope = m
 	return this
 }
+
+// forget about any variable changed in n
+func (this visitor) forget(n ast.Node) {
+	changes(n, func(id *ast.Ident) {
+		delete(this.scope, varOf(id))
+	})
+}
+
+type assigned struct {
+	times  int
+	shared bool // changed by another function than the one declaring it
+}
+
+func assignedVars(f *ast.File) map[any]*assigned {
+	out := map[any]*assigned{}
+	changes(f, func(id *ast.Ident) {
+		v := varOf(id)
+		if out[v] == nil {
+			out[v] = &assigned{}
+		}
+		out[v].times++
+	})
+	ast.Inspect(f, func(fn ast.Node) bool {
+		switch fn.(type) {
+		case *ast.FuncDecl, *ast.FuncLit:
+			changes(fn, func(id *ast.Ident) {
+				if id.Obj == nil || id.Obj.Pos() < fn.Pos() || id.Obj.Pos() > fn.End() {
+					out[varOf(id)].shared = true
+				}
+			})
+		}
+		return true
+	})
+	return out
+}
+
+// call f for any variable which is, or might be, changed in n
+func changes(n ast.Node, f func(*ast.Ident)) {
+	if n == nil {
+		return
+	}
+	ident := func(x ast.Expr) {
+		if id, ok := x.(*ast.Ident); ok {
+			f(id)
+		}
+	}
+	ast.Inspect(n, func(n ast.Node) bool {
+		switch n := n.(type) {
+		case *ast.AssignStmt:
+			for _, lh := range n.Lhs {
+				ident(lh)
+			}
+		case *ast.RangeStmt:
+			ident(n.Key)
+			ident(n.Value)
+		case *ast.IncDecStmt:
+			ident(n.X)
+		case *ast.UnaryExpr:
+			if n.Op == token.AND {
+				ident(n.X)
+			}
+		}
+		return true
+	})
+}
+
+// identity of a variable, so that we know when it is shadowed
+func varOf(id *ast.Ident) any {
+	if id.Obj != nil {
+		return id.Obj
+	}
+	return id.Name // from another file
+}
-- 
2.43.0


From 4518cb55c6841d3a0cc3f557cc17e7ab898cbe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:31 +0000
Subject: [PATCH 86/98] fix: metrics handler answers 500 when a metric fails,
 not a truncated 200

---
 utils/prom/http.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/prom/http.go b/utils/prom/http.go
index 83366c0..b6312c9 100644
--- a/utils/prom/http.go
+++ b/utils/prom/http.go
@@ -1,19 +1,23 @@
 package prom
 
 import (
+	"bytes"
 	"log"
 	"net/http"
 )
 
 func Handler() http.HandlerFunc {
 	return func(w http.ResponseWriter, r *http.Request) {
+		buf := &bytes.Buffer{} // sent only if complete
 		err := Range(func(name string, m Metric) error {
-			err := m.Print(name, w)
+			err := m.Print(name, buf)
 			return err
 		})
 		if err != nil {
 			w.WriteHeader(500)
 			log.Printf("can't print: %v", err)
+			return
 		}
+		_, _ = w.Write(buf.Bytes())
 	}
 }
-- 
2.43.0


From 63d3478c07c2cba6e913fb6e58ef2f51e02a55f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:49 +0000
Subject: [PATCH 87/98] fix: an operation refused by the OpenAPI description is
 not served

---
 http/api.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/http/api.go b/http/api.go
index 4631503..bebb41a 100644
--- a/http/api.go
+++ b/http/api.go
@@ -66,9 +66,13 @@ func (s *Server) RegisterAPI(c ctx.C, obj Doable) (*openapi.PathItem, error) {
 		return nil, ctx.NewErrorf(c, "no URL to register for %T", obj)
 	}
 
-	for _, u := range handler.URLs() {
+	pi, err := handler.UpdateOpenAPI(c, s.OpenAPI) // may refuse the object, nothing must be served then
+	if err != nil {
+		return nil, err
+	}
+	for _, u := range urls {
 		log.Debugf(c, "registering to %q", u.Path)
 		s.handleRequest(u.Path, f)
 	}
-	return handler.UpdateOpenAPI(c, s.OpenAPI)
+	return pi, nil
 }
-- 
2.43.0


From f4687fafe100978a58ff171e48f54fd2ab382c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:23 +0000
Subject: [PATCH 88/98] fix: ws errors which can't be marshaled are sent as
 text

---
 http/ws/conn.go    | 11 ++++++++++-
 http/ws/reflect.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/http/ws/conn.go b/http/ws/conn.go
index 65eddfa..a155b81 100644
--- a/http/ws/conn.go
+++ b/http/ws/conn.go
@@ -61,7 +61,7 @@ func (this *Conn) Loop(c ctx.C) error {
 			if err != nil {
 				this.Send(c, Frame{
 					Type: "disconnect",
-					Data: enc.MustMarshal(c, err),
+					Data: errorNode(c, err),
 				})
 				return ctx.NewErrorf(c, "closing: %v", err)
 			}
@@ -76,3 +76,12 @@ func (this *Conn) Send(c ctx.C, obj any) error {
 	}
 	return this.ws.Write(c, n)
 }
+
+// the error as data, or its text when it can't be marshaled
+func errorNode(c ctx.C, err error) enc.Node {
+	n, e := enc.Marshal(c, err)
+	if e != nil {
+		return enc.String(err.Error())
+	}
+	return n
+}
diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index f5d5bdb..7b0bb82 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -46,7 +46,7 @@ func (this builder) build(c C, req enc.Node) (any, error) {
 					Channel: c.ch.ID,
 					Path:    method.name,
 					Type:    "return",
-					Data:    enc.MustMarshal(c, err),
+					Data:    errorNode(c, err),
 				})
 				return ctx.NewErrorf(c, "ws[%s|%s]: %v", c.ch.ID, method.name, err)
 			}
-- 
2.43.0


From ffc7e6f062c9246a19cb38cabafa9a0011aae444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:26 +0000
Subject: [PATCH 89/98] fix: ws objects are not printed while in use

---
 http/ws/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/ws/handler.go b/http/ws/handler.go
index 0d7138a..a4b85fe 100644
--- a/http/ws/handler.go
+++ b/http/ws/handler.go
@@ -139,7 +139,7 @@ func (this *RpcHandler) Register(c ctx.C, obj any) error {
 				Data:    enc.String(err.Error()),
 			})
 		}
-		log.Debugf(c, "new %+v", obj)
+		log.Debugf(c, "new %T", obj) // never its value, which might be in use already
 		return nil
 	})
 	return nil
-- 
2.43.0


From d0975a7eac12a3a9f833e272f0f3e024499cfddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:31 +0000
Subject: [PATCH 90/98] fix: a value which contains itself is refused, not a
 stack overflow

---
 enc/handler.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index 772c6a4..9226a9b 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"sync"
 	"time"
+	"unsafe"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
@@ -23,8 +24,21 @@ type Handler struct {
 	Debugf func(c ctx.C, f string, args ...any)
 
 	path path
+
+	// how deep the value being marshaled is, and what contains it once it is deep enough to be a cycle
+	depth int
+	seen  map[visit]bool
+}
+
+type visit struct {
+	ptr unsafe.Pointer
+	len int
+	typ reflect.Type
 }
 
+// same as encoding/json, most values never get there
+const startDetectingCyclesAfter = 1000
+
 func (this Handler) Append(p any) Handler {
 	this.path = this.path.append(p)
 	return this
@@ -187,6 +201,19 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer && v.IsNil() {
 		return Nil{}, nil // must be checked first, the methods might have value receivers
 	}
+	this.depth++
+	if this.depth > startDetectingCyclesAfter {
+		if key, ok := visitOf(reflect.ValueOf(in)); ok {
+			if this.seen[key] {
+				return nil, ctx.NewErrorf(c, "can't marshal %T, it contains itself", in)
+			}
+			if this.seen == nil {
+				this.seen = map[visit]bool{}
+			}
+			this.seen[key] = true
+			defer delete(this.seen, key)
+		}
+	}
 	switch in := in.(type) {
 	case nil:
 		return Nil{}, nil
@@ -342,6 +369,18 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	return out, nil
 }
 
+// identifies the values which might contain themselves
+func visitOf(v reflect.Value) (key visit, ok bool) {
+	switch v.Kind() {
+	case reflect.Pointer, reflect.Map:
+		return visit{v.UnsafePointer(), 0, v.Type()}, true
+	case reflect.Slice:
+		return visit{v.UnsafePointer(), v.Len(), v.Type()}, true
+	default:
+		return visit{}, false
+	}
+}
+
 // tells if the field must be omitted: same rules of encoding/json, plus anything which is marshalled as Nil
 func isEmpty(v reflect.Value, n Node) bool {
 	switch n.(type) {
-- 
2.43.0


From 6bd5da2d833acf9392ce6f1da12a645afee86c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:08 +0000
Subject: [PATCH 91/98] fix: LRU.String() holds the lock

---
 utils/caches/lru.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index 48dca71..74994bd 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -98,6 +98,9 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 }
 
 func (this *LRU[K, V]) String() string {
+	this.l.Lock()
+	defer this.l.Unlock()
+
 	if len(this.heap.list) == 0 {
 		return fmt.Sprintf("LRU{%d/%d, empty}", this.curSize, this.MaxSize)
 	}
-- 
2.43.0


From 108d9a44ecbf2a91a816b34ee5f62fa857f03bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:13 +0000
Subject: [PATCH 92/98] fix: a histogram with an explicit +Inf bucket reports
 it once

---
 utils/prom/histogram.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index 2ad8f70..95185cc 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -3,6 +3,7 @@ package prom
 import (
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	"github.com/Aize-Public/forego/utils/sync"
@@ -79,6 +80,9 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 	}
 	if labels == "" {
 		for i, le := range le {
+			if math.IsInf(le, 1) {
+				continue // always reported, below
+			}
 			b := this.buckets[i]
 			_, err = fmt.Fprintf(w, "%s_bucket{le=\"%v\"} %d\n", name, le, b)
 			if err != nil {
@@ -101,6 +105,9 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 		}
 	} else {
 		for i, le := range le {
+			if math.IsInf(le, 1) {
+				continue // always reported, below
+			}
 			b := this.buckets[i]
 			_, err = fmt.Fprintf(w, "%s_bucket{%s,le=\"%v\"} %d\n", name, labels, le, b)
 			if err != nil {
-- 
2.43.0


From 7a7b852585737ebf324723e5b92b493a56915b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:10 +0000
Subject: [PATCH 93/98] fix: serve the profiles under any prefix, not only
 /debug

---
 http/monitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/http/monitor.go b/http/monitor.go
index 3bfb2ce..518119a 100644
--- a/http/monitor.go
+++ b/http/monitor.go
@@ -4,6 +4,7 @@ import (
 	"net/http"
 	nprof "net/http/pprof"
 	"runtime/pprof"
+	"strings"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
@@ -19,7 +20,11 @@ func (this *Server) SetupPrometheus(c ctx.C, path string) {
 
 // register /pprof/ and /goroutines under the given prefix
 func (this *Server) SetupMonitoring(c ctx.C, prefix string) {
-	this.mux.HandleFunc(prefix+"/pprof/", nprof.Index)
+	this.mux.HandleFunc(prefix+"/pprof/", func(w http.ResponseWriter, r *http.Request) {
+		r = r.Clone(r.Context())
+		r.URL.Path = "/debug" + strings.TrimPrefix(r.URL.Path, prefix) // the one it knows
+		nprof.Index(w, r)
+	})
 	this.mux.HandleFunc(prefix+"/pprof/cmdline", nprof.Cmdline)
 	this.mux.HandleFunc(prefix+"/pprof/profile", nprof.Profile)
 	this.mux.HandleFunc(prefix+"/pprof/symbol", nprof.Symbol)
-- 
2.43.0


From c03e34e4ee458a2bffe2c7bec2802c3846bb8853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:06 +0000
Subject: [PATCH 94/98] fix: the source of a value after a label is unknown, a
 goto may lead there

---
 utils/ast/call_args.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index e0956ea..21c28f7 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -143,6 +143,11 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 	case *ast.RangeStmt:
 		this.forget(n)
 
+	case *ast.LabeledStmt:
+		for v := range this.scope {
+			delete(this.scope, v) // might come from a goto anywhere in the function
+		}
+
 	case *ast.AssignStmt:
 		for _, rh := range n.Rhs {
 			ast.Walk(this, rh)
-- 
2.43.0


From 8e0d1f15b3962f57bdcbb7c7a75956ab46b2de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:57 +0000
Subject: [PATCH 95/98] fix: an unknown option in a json tag is an error, not a
 panic

---
 enc/handler.go | 5 ++++-
 enc/map.go     | 5 ++++-
 enc/util.go    | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 9226a9b..7a5faa0 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -352,7 +352,10 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 		if !ft.IsExported() {
 			continue
 		}
-		tag := parseTag(ft)
+		tag, err := parseTag(ft)
+		if err != nil {
+			return nil, ctx.NewErrorf(c, "can't marshal %T: %w", in, err)
+		}
 		if tag.Skip {
 			continue
 		}
diff --git a/enc/map.go b/enc/map.go
index 8b50c97..02c052d 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -101,7 +101,10 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			fv := into.Field(i)
 			ft := vt.Field(i)
 			if ft.IsExported() {
-				tag := parseTag(ft)
+				tag, err := parseTag(ft)
+				if err != nil {
+					return ctx.NewErrorf(c, "can't unmarshal %s into %v: %w", handler.path, vt, err)
+				}
 				if tag.Skip {
 					continue
 				}
diff --git a/enc/util.go b/enc/util.go
index ccf5902..fbb8613 100644
--- a/enc/util.go
+++ b/enc/util.go
@@ -95,7 +95,7 @@ type Tag struct {
 }
 
 // TODO(oha): we need to parse `enc`, `json` and eventually `yaml` and make sure they agree
-func parseTag(tag reflect.StructField) (out Tag) {
+func parseTag(tag reflect.StructField) (out Tag, err error) {
 	out.Name = tag.Name
 
 	json := tag.Tag.Get("json")
@@ -113,7 +113,7 @@ func parseTag(tag reflect.StructField) (out Tag) {
 		out.OmitEmpty = true
 	case "":
 	default:
-		panic(fmt.Sprintf("invalid tag: %v", tag))
+		err = fmt.Errorf("invalid tag: %v", tag)
 	}
 	return
 }
-- 
2.43.0


From 226fc48d3d0282f3b9c60ee9c428ab2f4124150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:52 +0000
Subject: [PATCH 96/98] fix: cancelling ReadAll does not wait for the close of
 the source

---
 http/call.go |  1 +
 utils/io.go  | 12 +++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/http/call.go b/http/call.go
index b69dfde..8f4c5cf 100644
--- a/http/call.go
+++ b/http/call.go
@@ -50,6 +50,7 @@ func (this CallHandler) Register(s *Server) {
 					if errors.As(err, &tooLong) {
 						return nil, NewErrorf(c, 413, "can't read body: %w", err)
 					}
+					w.Header().Set("Connection", "close") // or the response would wait for the rest of the body
 					return nil, NewErrorf(c, 400, "can't read body: %w", err)
 				}
 			}
diff --git a/utils/io.go b/utils/io.go
index de7674a..8576c78 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -10,15 +10,11 @@ import (
 
 // ReadAll() but honors the ctx.C cancel
 // Note: it uses an internal go-routine, which will block on read
-// If the close function is passed, it will be called when read is exhausted.
+// If the close function is passed, it will be called when read is exhausted, or in background when it's cancelled
 func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 	var mu sync.Mutex // the go-routine might outlive this call
 	out := bytes.Buffer{}
 	ch := make(chan error, 1)
-	if close != nil {
-		defer close() // nolint
-	}
-
 	go func() {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
@@ -35,10 +31,16 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 	}()
 	select {
 	case <-c.Done():
+		if close != nil {
+			go close() // nolint, might block until the pending Read() returns
+		}
 		mu.Lock()
 		defer mu.Unlock()
 		return append([]byte{}, out.Bytes()...), ctx.NewErrorf(c, "timeout: %w", c.Err())
 	case err := <-ch:
+		if close != nil {
+			defer close() // nolint
+		}
 		if err == io.EOF {
 			return out.Bytes(), nil
 		}
-- 
2.43.0


From b0cb62421705d3d3573ae981a78685d8c824deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:48 +0000
Subject: [PATCH 97/98] fix: an error whose Unwrap panics does not break the
 log call

---
 ctx/log/log.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 1abaeea..fe262d7 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -189,8 +189,7 @@ func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
 
 		case error:
 			m := map[string]any{"error": errorText(arg)}
-			var err ctx.Error
-			if errors.As(arg, &err) {
+			if err, ok := asError(arg); ok {
 				m["stack"] = err.Stack
 				if err.C != nil {
 					m["tags"] = ExtractTags(err.C)
@@ -227,6 +226,15 @@ func errorText(err error) (text string) {
 	return err.Error()
 }
 
+// finds the ctx.Error, if any. Like Error(), also Unwrap() might panic
+func asError(arg error) (err ctx.Error, ok bool) {
+	defer func() {
+		_ = recover()
+	}()
+	ok = errors.As(arg, &err)
+	return err, ok
+}
+
 func caller(above int) string {
 	_, file, line, _ := runtime.Caller(above + 1)
 	return fmt.Sprintf("%s:%d", file, line)
-- 
2.43.0


From c6dbe8dbfa0029e9ca3fdda0248b0bb210ec377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:51 +0000
Subject: [PATCH 98/98] fix: the identity comes only from the authentication

---
 api/handler.go | 3 +++
 api/json.go    | 1 +
 2 files changed, 4 insertions(+)

diff --git a/api/handler.go b/api/handler.go
index f3c7d4e..54845f6 100644
--- a/api/handler.go
+++ b/api/handler.go
@@ -224,6 +224,9 @@ func (this Server[T]) Recv(c ctx.C, req ServerRequest) (T, error) {
 		v.Field(f.i).SetZero()
 	}
 	for _, f := range this.in {
+		if f.tag.auth {
+			continue // never from the request
+		}
 		fv := v.Field(f.i)
 		err := req.Unmarshal(c, f.tag.name, fv)
 		if err != nil {
diff --git a/api/json.go b/api/json.go
index eb6cb23..c28cc62 100644
--- a/api/json.go
+++ b/api/json.go
@@ -57,6 +57,7 @@ func (this *JSON) Auth(c ctx.C, into reflect.Value, required bool) error {
 		}
 		return nil
 	}
+	into.SetZero() // nothing of the previous value must be left, even if omitted from the identity
 	return this.h.Unmarshal(c, this.UID, into.Addr().Interface())
 }
 
-- 
2.43.0

