From 7296899fbf76cf34ebb6671589eef001553215d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 01/41] fix: do not panic on an empty or one-character bare
 token

Parse indexed the first byte of an empty token ('}', '[,1]', '{a:}').
---
 jsonutils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 97e6883..81b2699 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -259,7 +259,7 @@ func (s *sJsonParseSession) parseJSONValue(str []byte, offset int) (JSONObject,
 		return nil, i, errors.Wrap(e, "parseString")
 	} else if quote {
 		return &JSONString{data: val}, i, nil
-	} else if val[0] == '<' && val[len(val)-1] == '>' {
+	} else if len(val) > 1 && val[0] == '<' && val[len(val)-1] == '>' {
 		// Pointer <nnnn>
 		val = val[1 : len(val)-1]
 		ival, err := strconv.ParseInt(val, 10, 64)
-- 
2.43.0


From 78b031fae55f8376e714520a0d3ec5a63cb38551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 02/41] fix: reject a non-integer node id instead of panicking
 in Parse

---
 jsonutils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 81b2699..4616efa 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -476,7 +476,11 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 		}
 		if key == jsonPointerKey {
 			// node id
-			nodeId = int(val.(*JSONInt).data)
+			nodeIdVal, ok := val.(*JSONInt)
+			if !ok {
+				return smap, i, nodeId, NewJSONError(str, i, "Invalid node id")
+			}
+			nodeId = int(nodeIdVal.data)
 		} else {
 			smap = sortedmap.Add(smap, key, val)
 		}
-- 
2.43.0


From 760ba476b656f1b4c1b02a637d6c3ececb4fabd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 03/41] fix: reject a duplicate node id instead of panicking in
 Parse

---
 jsonutils.go     | 4 +++-
 parse_session.go | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 4616efa..c95aeb0 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -561,7 +561,9 @@ func (this *JSONDict) parse(s *sJsonParseSession, str []byte, offset int) (int,
 		this.nodeId = nodeId
 		this.data = smap
 		if this.nodeId > 0 {
-			s.saveNode(nodeId, this)
+			if e := s.saveNode(nodeId, this); e != nil {
+				return i, errors.Wrap(e, "saveNode")
+			}
 		}
 		return i, nil
 	}
diff --git a/parse_session.go b/parse_session.go
index 632dce9..a2226b0 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -15,7 +15,7 @@
 package jsonutils
 
 import (
-	"fmt"
+	"yunion.io/x/pkg/errors"
 )
 
 type sNodeReferer struct {
@@ -43,10 +43,10 @@ func (s *sJsonParseSession) saveReferer(nodeId int, ptr *sJSONPointer) {
 	}
 }
 
-func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
+func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) error {
 	if nr, ok := s.objectMap[nodeId]; ok {
 		if nr.node != nil {
-			panic(fmt.Sprintf("nodeId %d alreayd exists: %s != %s", nodeId, nr.node, node))
+			return errors.Wrapf(errors.ErrInvalidStatus, "duplicate node id %d", nodeId)
 		} else {
 			nr.node = node
 		}
@@ -56,4 +56,5 @@ func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
 			pointers: nil,
 		}
 	}
+	return nil
 }
-- 
2.43.0


From a160ab7a1c7dcd89c373cf5751aa2814b2b43c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 04/41] fix: decode a \\uXXXX surrogate pair as one character

---
 jsonutils.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index c95aeb0..3cd5990 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -20,6 +20,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	"yunion.io/x/log"
@@ -183,6 +184,13 @@ ret:
 					if e != nil {
 						return "", i, NewJSONError(str, i, e.Error())
 					}
+					if utf16.IsSurrogate(r) && i+10 <= len(str) && str[i+4] == '\\' && str[i+5] == 'u' {
+						r2, e := hexstr2rune(str[i+6 : i+10])
+						if e == nil && utf16.DecodeRune(r, r2) != utf8.RuneError {
+							r = utf16.DecodeRune(r, r2)
+							i += 6
+						}
+					}
 					runen = utf8.EncodeRune(runebytes, r)
 					buffer = append(buffer, runebytes[0:runen]...)
 					i += 4
-- 
2.43.0


From 6d3168f25ebcbd8bb3c7f1ae8426e8aefc19464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 05/41] fix: reject a container that ends right after '[', '{'
 or ','

---
 jsonutils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 3cd5990..1f2d049 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -506,6 +506,9 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			return smap, i, nodeId, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return smap, i, nodeId, NewJSONError(str, i, "Truncated")
+	}
 	return smap, i, nodeId, nil
 }
 
@@ -560,6 +563,9 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 			return list, i, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return list, i, NewJSONError(str, i, "Truncated")
+	}
 	return list, i, nil
 }
 
-- 
2.43.0


From 9bb3e287b1849c75b3fb531d9eaab84e44a5b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 06/41] fix: PrettyString escapes keys and keeps node ids

---
 jsonutils.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 1f2d049..4f9004c 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -602,6 +602,15 @@ func (this *JSONDict) prettyString(level int) string {
 	buffer.WriteString(tab)
 	buffer.WriteByte('{')
 	var idx = 0
+	if this.nodeId > 0 {
+		buffer.WriteByte('\n')
+		buffer.WriteString(tab)
+		buffer.WriteString("  ")
+		buffer.WriteString(quoteString(jsonPointerKey))
+		buffer.WriteString(": ")
+		buffer.WriteString(strconv.Itoa(this.nodeId))
+		idx++
+	}
 	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
 		k, vInf := iter.Get()
 		v := vInf.(JSONObject)
@@ -611,9 +620,8 @@ func (this *JSONDict) prettyString(level int) string {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 		buffer.WriteString("  ")
-		buffer.WriteByte('"')
-		buffer.WriteString(k)
-		buffer.WriteString("\":")
+		buffer.WriteString(quoteString(k))
+		buffer.WriteByte(':')
 		_, okdict := v.(*JSONDict)
 		_, okarray := v.(*JSONArray)
 		if okdict || okarray {
@@ -625,7 +633,7 @@ func (this *JSONDict) prettyString(level int) string {
 		}
 		idx++
 	}
-	if len(this.data) > 0 {
+	if idx > 0 {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 	}
-- 
2.43.0


From 7c096b841c93d238e5b428a31917104f354e4ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 07/41] fix: Unmarshal of a number or boolean fills the target
 instead of zeroing it

---
 unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 4209253..4f4d5cb 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -54,6 +54,18 @@ func (this *JSONString) Unmarshal(obj interface{}, keys ...string) error {
 	return jsonUnmarshal(this, obj, keys)
 }
 
+func (this *JSONInt) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONFloat) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONBool) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
 func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	if len(keys) > 0 {
 		var err error = nil
-- 
2.43.0


From 232db6d0d2688f5d4eed5db08cc741ba4c6cc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 08/41] fix: unmarshal a boolean or float into an unsigned
 field without panicking

---
 unmarshal.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 4f4d5cb..fb1f62f 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -194,13 +194,18 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		if this.data {
 			val.SetInt(1)
 		} else {
 			val.SetInt(0)
 		}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if this.data {
+			val.SetUint(1)
+		} else {
+			val.SetUint(0)
+		}
 	case reflect.Float32, reflect.Float64:
 		if this.data {
 			val.SetFloat(1.0)
@@ -282,9 +287,10 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		val.SetInt(int64(this.data))
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		val.SetUint(uint64(this.data))
 	case reflect.Float32, reflect.Float64:
 		val.SetFloat(this.data)
 	case reflect.Bool:
-- 
2.43.0


From 7f0c0cca41060bfd1988e079ad29eace7d6d1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 09/41] fix: a tristate field keeps the tristate it was set to

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index fb1f62f..540ecc4 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -126,6 +126,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
@@ -192,6 +193,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		} else {
 			val.Set(tristate.TriStateFalseValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -285,6 +287,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -379,6 +382,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			val.Set(tristate.TriStateNoneValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-- 
2.43.0


From 7d7be61575da6c3c248789f2d87c7181e1df85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 10/41] fix: unmarshal into a JSON scalar pointer replaces it
 instead of writing through it

The old value may be JSONTrue/JSONFalse or belong to another document; a nil
*JSONBool was not set at all.
---
 unmarshal.go | 39 +++++----------------------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 540ecc4..4b1d840 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -109,14 +109,8 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		json.data = fmt.Sprintf("%d", this.data)
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
 		data := fmt.Sprintf("%d", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(data)))
 		return nil
 	case JSONBoolType, JSONFloatType, JSONArrayType, JSONDictType, JSONBoolPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONInt type mismatch %s", val.Type())
@@ -176,14 +170,8 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		json.data = strconv.FormatBool(this.data)
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
 		data := strconv.FormatBool(this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(data)))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONBool type mismatch %s", val.Type())
@@ -253,27 +241,15 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		json.data = fmt.Sprintf("%f", this.data)
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
 		data := fmt.Sprintf("%f", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(data)))
 		return nil
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
 		json.data = int64(this.data)
 		return nil
 	case JSONIntPtrType:
-		json := val.Interface().(*JSONInt)
-		if json == nil {
-			json = NewInt(int64(this.data))
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = int64(this.data)
-		}
+		val.Set(reflect.ValueOf(NewInt(int64(this.data))))
 		return nil
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
@@ -356,7 +332,6 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		return nil
 	case JSONBoolPtrType:
-		json := val.Interface().(*JSONBool)
 		var data bool
 		switch strings.ToLower(this.data) {
 		case "true", "yes", "on", "1":
@@ -364,11 +339,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			data = false
 		}
-		if json == nil {
-			json = &JSONBool{data: data}
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewBool(data)))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType,
 		JSONBoolPtrType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
-- 
2.43.0


From 118c3816d066054b33369ee5b30df00ad9e3eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 11/41] fix: unmarshal into a JSON scalar held by value stores
 the value

---
 unmarshal.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 4b1d840..5d11094 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -100,6 +100,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONIntPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -107,6 +108,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = fmt.Sprintf("%d", this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		data := fmt.Sprintf("%d", this.data)
@@ -161,6 +163,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONBoolPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -168,6 +171,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = strconv.FormatBool(this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		data := strconv.FormatBool(this.data)
@@ -232,6 +236,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONFloatType:
 		json := val.Interface().(JSONFloat)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONFloatPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -239,6 +244,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = fmt.Sprintf("%f", this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		data := fmt.Sprintf("%f", this.data)
@@ -247,6 +253,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
 		json.data = int64(this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONIntPtrType:
 		val.Set(reflect.ValueOf(NewInt(int64(this.data))))
@@ -254,6 +261,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
 		json.data = (int(this.data) != 0)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONFloat type mismatch %s", val.Type())
@@ -305,6 +313,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -330,6 +339,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			json.data = false
 		}
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONBoolPtrType:
 		var data bool
-- 
2.43.0


From 4dc58a2861cb78b3b30112f1d722caeda877c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 12/41] fix: report a type mismatch for a non-empty interface
 instead of panicking

---
 unmarshal.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 5d11094..734a957 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -147,6 +147,9 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
+		if val.NumMethod() > 0 {
+			return errors.Wrapf(ErrTypeMismatch, "JSONInt vs. %s", val.Type())
+		}
 		val.Set(reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONInt vs. %s", val.Type())
@@ -220,6 +223,9 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
+		if val.NumMethod() > 0 {
+			return errors.Wrapf(ErrTypeMismatch, "JSONBool vs. %s", val.Type())
+		}
 		val.Set(reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONBool vs. %s", val.Type())
@@ -294,6 +300,9 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
+		if val.NumMethod() > 0 {
+			return errors.Wrapf(ErrTypeMismatch, "JSONFloat vs. %s", val.Type())
+		}
 		val.Set(reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONFloat vs. %s", val.Type())
@@ -400,6 +409,9 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
+		if val.NumMethod() > 0 {
+			return errors.Wrapf(ErrTypeMismatch, "JSONString vs. %s", val.Type())
+		}
 		val.Set(reflect.ValueOf(this.data))
 	case reflect.Slice:
 		dataLen := 1
@@ -450,6 +462,9 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
+		if val.NumMethod() > 0 {
+			return errors.Wrapf(ErrTypeMismatch, "JSONArray vs. %s", val.Type())
+		}
 		val.Set(reflect.ValueOf(this.data))
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
-- 
2.43.0


From fc318b7e665f637da207c9799008d9baf6739cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 13/41] fix: printing a float does not write to it

Concurrent readers of one parsed document raced on the field.
---
 string.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index dfa791b..cf56025 100644
--- a/string.go
+++ b/string.go
@@ -33,10 +33,11 @@ func (this *JSONInt) String() string {
 }
 
 func (this *JSONFloat) String() string {
-	if this.bit != 32 && this.bit != 64 {
-		this.bit = 64
+	bit := this.bit
+	if bit != 32 && bit != 64 {
+		bit = 64
 	}
-	return strconv.FormatFloat(this.data, 'f', -1, this.bit)
+	return strconv.FormatFloat(this.data, 'f', -1, bit)
 }
 
 func (this *JSONBool) String() string {
-- 
2.43.0


From 405e00ec74d9039cb68ba5f5bcb47e4f7e4e31d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 14/41] fix: unmarshal a float32 number into a JSONFloat keeps
 its precision

---
 unmarshal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unmarshal.go b/unmarshal.go
index 734a957..fd946bb 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -242,6 +242,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONFloatType:
 		json := val.Interface().(JSONFloat)
 		json.data = this.data
+		json.bit = this.bit
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONFloatPtrType, JSONObjectType:
-- 
2.43.0


From d2b210b80023d35ed76477e7a94f738c46e02df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 15/41] fix: DeepCopy keeps the node references of a cyclic
 document

---
 clone.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/clone.go b/clone.go
index f92cfc3..5ca66d7 100644
--- a/clone.go
+++ b/clone.go
@@ -81,7 +81,27 @@ func (this *JSONDict) DeepCopy() interface{} {
 	return DeepCopy(this)
 }
 
+// sDeepCopySession maps every copied dict to its copy, so that the node
+// pointers of a copied graph refer to the copied nodes
+type sDeepCopySession struct {
+	nodes    map[JSONObject]JSONObject
+	pointers []*sJSONPointer
+}
+
 func DeepCopy(obj JSONObject) JSONObject {
+	s := &sDeepCopySession{
+		nodes: make(map[JSONObject]JSONObject),
+	}
+	ret := s.deepCopy(obj)
+	for _, ptr := range s.pointers {
+		if node, ok := s.nodes[ptr.node]; ok {
+			ptr.node = node
+		}
+	}
+	return ret
+}
+
+func (s *sDeepCopySession) deepCopy(obj JSONObject) JSONObject {
 	if obj == nil || reflect.ValueOf(obj).IsNil() {
 		return nil
 	}
@@ -102,19 +122,25 @@ func DeepCopy(obj JSONObject) JSONObject {
 		elemsC := make([]JSONObject, v.Length())
 		for i := 0; i < v.Length(); i++ {
 			elem, _ := v.GetAt(i)
-			elemC := DeepCopy(elem)
+			elemC := s.deepCopy(elem)
 			elemsC[i] = elemC
 		}
 		vc := NewArray(elemsC...)
 		return vc
 	case *JSONDict:
 		vc := NewDict()
+		vc.nodeId = v.nodeId
+		s.nodes[v] = vc
 		m, _ := v.GetMap()
 		for mk, mv := range m {
-			mvc := DeepCopy(mv)
+			mvc := s.deepCopy(mv)
 			vc.Set(mk, mvc)
 		}
 		return vc
+	case *sJSONPointer:
+		vc := *v
+		s.pointers = append(s.pointers, &vc)
+		return &vc
 	case *JSONValue:
 		vc := *v
 		return &vc
-- 
2.43.0


From d1ff5b21f2949786642d86a3352925c4c9d5b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 16/41] fix: unmarshal node references without panicking on a
 forward or mismatched one

---
 jsonpointer.go       |  4 ++++
 unmarshal.go         |  6 ++++--
 unmarshal_session.go | 11 ++++++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/jsonpointer.go b/jsonpointer.go
index b525c7c..269e837 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -73,6 +73,10 @@ func (dict *JSONDict) setNodeId(nodeId int) {
 }
 
 func (ptr *sJSONPointer) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
+	if val.Type() == JSONObjectType {
+		val.Set(reflect.ValueOf(ptr))
+		return nil
+	}
 	return s.setPointerValue(ptr.nodeId, val)
 }
 
diff --git a/unmarshal.go b/unmarshal.go
index fd946bb..cd500eb 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -494,8 +494,10 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 }
 
 func (this *JSONDict) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
-	if this.nodeId > 0 && val.CanAddr() {
-		s.saveNodeValue(this.nodeId, val.Addr())
+	if this.nodeId > 0 && val.CanAddr() && val.Kind() != reflect.Ptr {
+		if err := s.saveNodeValue(this.nodeId, val.Addr()); err != nil {
+			return errors.Wrap(err, "saveNodeValue")
+		}
 	}
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
diff --git a/unmarshal_session.go b/unmarshal_session.go
index 1b5d89c..f181b71 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -16,6 +16,8 @@ package jsonutils
 
 import (
 	"reflect"
+
+	"yunion.io/x/pkg/errors"
 )
 
 type sJsonNodeValues struct {
@@ -34,7 +36,7 @@ func newJsonUnmarshalSession() *sJsonUnmarshalSession {
 	}
 }
 
-func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
+func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) error {
 	if nv, ok := s.objectMap[nodeId]; !ok {
 		s.objectMap[nodeId] = &sJsonNodeValues{
 			nodeValue:    val,
@@ -44,14 +46,21 @@ func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
 		nv.nodeValue = val
 		nv.nodeValueSet = true
 		for i := range nv.targetValues {
+			if !val.Type().AssignableTo(nv.targetValues[i].Type()) {
+				return errors.Wrapf(ErrTypeMismatch, "node %d: %s vs. %s", nodeId, val.Type(), nv.targetValues[i].Type())
+			}
 			nv.targetValues[i].Set(val)
 		}
 		nv.targetValues = nil
 	}
+	return nil
 }
 
 func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) error {
 	if nv, ok := s.objectMap[nodeId]; ok && nv.nodeValueSet {
+		if !nv.nodeValue.Type().AssignableTo(val.Type()) {
+			return errors.Wrapf(ErrTypeMismatch, "node %d: %s vs. %s", nodeId, nv.nodeValue.Type(), val.Type())
+		}
 		val.Set(nv.nodeValue)
 	} else if ok && !nv.nodeValueSet {
 		nv.targetValues = append(nv.targetValues, val)
-- 
2.43.0


From f33efdea55e90cac2ec9d96fe99079dd36b4e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 17/41] fix: resolve a forward node reference held by a map
 entry

---
 unmarshal.go         |  5 ++++-
 unmarshal_session.go | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index cd500eb..02543d7 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -77,6 +77,9 @@ func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	s := newJsonUnmarshalSession()
 	value := reflect.ValueOf(o)
 	err := jo.unmarshalValue(s, reflect.Indirect(value))
+	for _, setEntry := range s.mapEntries {
+		setEntry()
+	}
 	if err != nil {
 		return errors.Wrap(err, "jo.unmarshalValue")
 	}
@@ -590,7 +593,7 @@ func (this *JSONDict) unmarshalMap(s *sJsonUnmarshalSession, val reflect.Value)
 		if err != nil {
 			return errors.Wrap(err, "JSONDict.unmarshalMap")
 		}
-		val.SetMapIndex(keyVal, valVal)
+		s.setMapEntry(val, keyVal, valVal)
 	}
 	return nil
 }
diff --git a/unmarshal_session.go b/unmarshal_session.go
index f181b71..476b024 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -28,6 +28,8 @@ type sJsonNodeValues struct {
 
 type sJsonUnmarshalSession struct {
 	objectMap map[int]*sJsonNodeValues
+	// map entries stored while some node references were still unresolved
+	mapEntries []func()
 }
 
 func newJsonUnmarshalSession() *sJsonUnmarshalSession {
@@ -56,6 +58,20 @@ func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) err
 	return nil
 }
 
+// setMapEntry stores a map entry. Maps hold copies, so the entry is stored again
+// at the end if a node reference inside may have been resolved in the meantime.
+func (s *sJsonUnmarshalSession) setMapEntry(mapVal, key, val reflect.Value) {
+	mapVal.SetMapIndex(key, val)
+	for _, nv := range s.objectMap {
+		if !nv.nodeValueSet {
+			s.mapEntries = append(s.mapEntries, func() {
+				mapVal.SetMapIndex(key, val)
+			})
+			return
+		}
+	}
+}
+
 func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) error {
 	if nv, ok := s.objectMap[nodeId]; ok && nv.nodeValueSet {
 		if !nv.nodeValue.Type().AssignableTo(val.Type()) {
-- 
2.43.0


From 5e00169fdb876a199c762416cc5703b76889b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 18/41] fix: query string keys like 01 or +1 are names, not
 array indexes

The value was looked up under the canonical number and lost.
---
 stringsegment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stringsegment.go b/stringsegment.go
index 78edf2b..c74ac02 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -65,7 +65,8 @@ func (tn sTextNumber) String() string {
 
 func string2TextNumber(str string) sTextNumber {
 	num, err := strconv.ParseInt(str, 10, 64)
-	if err != nil {
+	if err != nil || num < 0 || strconv.FormatInt(num, 10) != str {
+		// only the canonical form of a number is an index
 		return sTextNumber{text: str, isNumber: false}
 	} else {
 		return sTextNumber{number: num, isNumber: true}
-- 
2.43.0


From bcebf034c875acddebee5a10b1ed31e9fa302449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 19/41] fix: query string parameters of one array are handled
 in index order

Sorting by depth first lost the elements of an array that mixes scalars and
nested values, or turned it into a dict.
---
 stringsegment.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/stringsegment.go b/stringsegment.go
index c74ac02..85ad677 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -95,12 +95,7 @@ type sStringSegments [][]sTextNumber
 func (ss sStringSegments) Len() int      { return len(ss) }
 func (ss sStringSegments) Swap(i, j int) { ss[i], ss[j] = ss[j], ss[i] }
 func (ss sStringSegments) Less(i, j int) bool {
-	if len(ss[i]) < len(ss[j]) {
-		return true
-	} else if len(ss[i]) > len(ss[j]) {
-		return false
-	}
-	for ii := range ss[i] {
+	for ii := 0; ii < len(ss[i]) && ii < len(ss[j]); ii++ {
 		ret := ss[i][ii].compare(ss[j][ii])
 		if ret < 0 {
 			return true
@@ -108,7 +103,7 @@ func (ss sStringSegments) Less(i, j int) bool {
 			return false
 		}
 	}
-	return false
+	return len(ss[i]) < len(ss[j])
 }
 
 func strings2stringSegments(strs []string) sStringSegments {
-- 
2.43.0


From d48d10db76b24148e76b882f368d6768d8ccfaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 20/41] fix: ParseQueryString reports contradictory parameters
 instead of dropping them

---
 querystring.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/querystring.go b/querystring.go
index faded21..06a2548 100644
--- a/querystring.go
+++ b/querystring.go
@@ -55,10 +55,19 @@ func addQueryStringSeg(body JSONObject, segs []sTextNumber, val []string) (JSONO
 			if err != nil {
 				return nil, errors.Wrapf(err, "get jsondict %s with %s fail", body, key)
 			}
-			addQueryStringSeg(next, segs[1:], val)
+			if len(segs) == 1 {
+				return nil, errors.Wrapf(ErrTypeMismatch, "key %s is set already", segs[0])
+			}
+			_, err = addQueryStringSeg(next, segs[1:], val)
+			if err != nil {
+				return nil, errors.Wrapf(err, "addQueryStringSeg %s with %s fail", next, segs[0])
+			}
 		}
 		return jbody, nil
 	case *JSONArray:
+		if !segs[0].isNumber {
+			return nil, errors.Wrapf(ErrTypeMismatch, "invalid index %s", segs[0])
+		}
 		index := segs[0].number
 		arrSize := int64(jbody.Size())
 		if index < arrSize {
@@ -66,7 +75,13 @@ func addQueryStringSeg(body JSONObject, segs []sTextNumber, val []string) (JSONO
 			if err != nil {
 				return nil, errors.Wrapf(err, "get jsonarray %s at %d fail", body, index)
 			}
-			addQueryStringSeg(next, segs[1:], val)
+			if len(segs) == 1 {
+				return nil, errors.Wrapf(ErrTypeMismatch, "key %s is set already", segs[0])
+			}
+			_, err = addQueryStringSeg(next, segs[1:], val)
+			if err != nil {
+				return nil, errors.Wrapf(err, "addQueryStringSeg %s with %s fail", next, segs[0])
+			}
 		} else if arrSize == index {
 			// new
 			next, err := addQueryStringSeg(nil, segs[1:], val)
-- 
2.43.0


From 30c27780298b4ad6954dfc74a8ec7805dde13f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 21/41] fix: do not panic on an AfterUnmarshal of an unexported
 embedded struct

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 02543d7..0d43088 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -667,6 +667,10 @@ func callStructAfterUnmarshal(val reflect.Value) {
 			}
 		}
 		valPtr := val.Addr()
+		if !valPtr.CanInterface() {
+			// embedded through an unexported field, not callable
+			return
+		}
 		afterMarshalFunc := valPtr.MethodByName("AfterUnmarshal")
 		if afterMarshalFunc.IsValid() && !afterMarshalFunc.IsNil() {
 			afterMarshalFunc.Call([]reflect.Value{})
-- 
2.43.0


From 02850982a16a22d26cd2e1b115a7267744c83100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 22/41] fix: reject documents nested deeper than 10000 levels

A few megabytes of '[' overflowed the stack, which ends the process.
---
 jsonutils.go     | 10 ++++++++++
 parse_session.go |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 4f9004c..4a2a249 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -435,6 +435,11 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 	if str[offset] != '{' {
 		return smap, offset, nodeId, NewJSONError(str, offset, "{ not found")
 	}
+	if s.depth >= maxParseDepth {
+		return smap, offset, nodeId, NewJSONError(str, offset, "Nested too deep")
+	}
+	s.depth++
+	defer func() { s.depth-- }()
 	var i = offset + 1
 	var e error = nil
 	var key string
@@ -516,6 +521,11 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 	if str[offset] != '[' {
 		return nil, offset, NewJSONError(str, offset, "[ not found")
 	}
+	if s.depth >= maxParseDepth {
+		return nil, offset, NewJSONError(str, offset, "Nested too deep")
+	}
+	s.depth++
+	defer func() { s.depth-- }()
 	var (
 		list []JSONObject
 		i    = offset + 1
diff --git a/parse_session.go b/parse_session.go
index a2226b0..0f532dd 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -23,8 +23,12 @@ type sNodeReferer struct {
 	pointers []*sJSONPointer
 }
 
+// maxParseDepth bounds the nesting of a document, deeper ones would exhaust the stack
+const maxParseDepth = 10000
+
 type sJsonParseSession struct {
 	objectMap map[int]*sNodeReferer
+	depth     int
 }
 
 func newJsonParseSession() *sJsonParseSession {
-- 
2.43.0


From 0472602c0f3aad04fbbfde88ec4a87a49711fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 23/41] fix: YAMLString keeps strings with DEL, C1 controls and
 line separators

They made the whole document an empty string.
---
 yamlutils.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/yamlutils.go b/yamlutils.go
index 19d3e58..17eb48f 100644
--- a/yamlutils.go
+++ b/yamlutils.go
@@ -14,7 +14,13 @@
 
 package jsonutils
 
-import "github.com/ghodss/yaml"
+import (
+	"fmt"
+	"strings"
+	"unicode/utf8"
+
+	"github.com/ghodss/yaml"
+)
 
 func ParseYAML(str string) (JSONObject, error) {
 	jsonBytes, err := yaml.YAMLToJSON([]byte(str))
@@ -24,8 +30,24 @@ func ParseYAML(str string) (JSONObject, error) {
 	return Parse(jsonBytes)
 }
 
+// escapeYamlSpecial escapes the characters that YAML, unlike JSON, does not allow
+// or does not keep unescaped. In a JSON text they occur in quoted strings only.
+func escapeYamlSpecial(jsonStr string) string {
+	sb := &strings.Builder{}
+	for i, r := range jsonStr {
+		switch {
+		case r >= 0x7f && r <= 0x9f, r == 0x2028, r == 0x2029, r == 0xfeff, r == 0xfffe, r == 0xffff:
+			sb.WriteString(fmt.Sprintf("\\u%04x", r))
+		default:
+			_, size := utf8.DecodeRuneInString(jsonStr[i:])
+			sb.WriteString(jsonStr[i : i+size])
+		}
+	}
+	return sb.String()
+}
+
 func yamlString(obj JSONObject) string {
-	yamlBytes, _ := yaml.JSONToYAML([]byte(obj.String()))
+	yamlBytes, _ := yaml.JSONToYAML([]byte(escapeYamlSpecial(obj.String())))
 	return string(yamlBytes)
 }
 
-- 
2.43.0


From e7f5ab60ce64e8589d4c2e8baaabb4bff3fd5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 24/41] fix: an unquoted member name cannot start with an open
 bracket

---
 jsonutils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 4a2a249..02db1ea 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -454,6 +454,9 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			i++
 			continue
 		}
+		if str[i] == '{' || str[i] == '[' {
+			return smap, i, nodeId, NewJSONError(str, i, "Unexpected char")
+		}
 		key, _, i, e = parseString(str, i)
 		if e != nil {
 			return smap, i, nodeId, errors.Wrap(e, "parseString")
-- 
2.43.0


From da1eb1dea89b000a4fd51190105d66a9f5b39fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 25/41] fix: reading an object as a number or boolean does not
 recurse forever

---
 access.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/access.go b/access.go
index 7d687d3..4db6cc6 100644
--- a/access.go
+++ b/access.go
@@ -384,6 +384,9 @@ func (this *JSONDict) Int(keys ...string) (int64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonInt
+	}
 	return obj.Int()
 	/* jint, ok := obj.(*JSONInt)
 	   if ! ok {
@@ -430,6 +433,9 @@ func (this *JSONDict) Float(keys ...string) (float64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonFloat
+	}
 	return obj.Float()
 	/* jfloat, ok := obj.(*JSONFloat)
 	   if ! ok {
@@ -470,6 +476,9 @@ func (this *JSONDict) Bool(keys ...string) (bool, error) {
 	if err != nil {
 		return false, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return false, ErrInvalidJsonBoolean
+	}
 	return obj.Bool()
 	/* jbool, ok := obj.(*JSONBool)
 	   if ! ok {
-- 
2.43.0


From 68d93006fff1521615eab70f143a8aebce97b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 26/41] fix: unmarshal an object or list through a pointer to a
 pointer

---
 unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 0d43088..425793c 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -458,7 +458,7 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		return nil
 	case reflect.Ptr:
 		kind := val.Type().Elem().Kind()
-		if kind == reflect.Array || kind == reflect.Slice {
+		if kind == reflect.Array || kind == reflect.Slice || kind == reflect.Ptr {
 			if val.IsNil() {
 				val.Set(reflect.New(val.Type().Elem()))
 			}
@@ -556,7 +556,7 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	case reflect.Ptr:
 		kind := val.Type().Elem().Kind()
-		if kind == reflect.Struct || kind == reflect.Map {
+		if kind == reflect.Struct || kind == reflect.Map || kind == reflect.Ptr {
 			if val.IsNil() {
 				newVal := reflect.New(val.Type().Elem())
 				val.Set(newVal)
-- 
2.43.0


From 140f30b847be909bbe70deda2b794ec6e7a22759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 27/41] fix: Marshal does not panic on a named boolean type

---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 12d6c1e..6679e59 100644
--- a/marshal.go
+++ b/marshal.go
@@ -386,7 +386,7 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 		strValue := objValue.Convert(gotypes.StringType)
 		return marshalString(strValue.Interface().(string), info, omitEmpty)
 	case reflect.Bool:
-		return marshalBoolean(objValue.Interface().(bool), info, omitEmpty)
+		return marshalBoolean(objValue.Bool(), info, omitEmpty)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		intValue := objValue.Convert(gotypes.Int64Type)
-- 
2.43.0


From e0c25daeac56add2c1ed78b7f4b92c6e88385243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 28/41] fix: a path lookup follows a node reference in the
 middle

---
 access.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/access.go b/access.go
index 4db6cc6..6f7b563 100644
--- a/access.go
+++ b/access.go
@@ -227,6 +227,9 @@ func (this *JSONDict) _get(caseSensitive bool, keys []string) (JSONObject, error
 			if i == len(keys)-1 {
 				return val.(JSONObject), nil
 			} else {
+				if ptr, isPtr := val.(*sJSONPointer); isPtr {
+					val = ptr.getNode()
+				}
 				this, ok = val.(*JSONDict)
 				if !ok {
 					return nil, ErrInvalidJsonDict
-- 
2.43.0


From a620736c92f661e49331f5ae529a03b1646289a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 29/41] fix: a list unmarshalled into a filled slice or array
 replaces the old elements

---
 unmarshal.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 425793c..bf9f3e1 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -418,13 +418,10 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		val.Set(reflect.ValueOf(this.data))
 	case reflect.Slice:
+		// a list is replaced, nothing of the old elements remains
 		dataLen := 1
-		if val.Cap() < dataLen {
-			newVal := reflect.MakeSlice(val.Type(), dataLen, dataLen)
-			val.Set(newVal)
-		} else if val.Len() != dataLen {
-			val.SetLen(dataLen)
-		}
+		newVal := reflect.MakeSlice(val.Type(), dataLen, dataLen)
+		val.Set(newVal)
 		return this.unmarshalValue(s, val.Index(0))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONString vs. %s", val.Type())
@@ -475,13 +472,13 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 			if val.Len() != len(this.data) {
 				return ErrArrayLengthMismatch // fmt.Errorf("JSONArray length unmatch %s: %d != %d", val.Type(), val.Len(), len(this.data))
 			}
+			// a list is replaced, nothing of the old elements remains
+			val.Set(reflect.Zero(val.Type()))
 		} else if val.Kind() == reflect.Slice {
 			dataLen := len(this.data)
-			if val.IsNil() || val.Cap() < dataLen {
+			if val.CanSet() || val.Len() != dataLen {
 				newVal := reflect.MakeSlice(val.Type(), dataLen, dataLen)
 				val.Set(newVal)
-			} else if val.Len() != dataLen {
-				val.SetLen(dataLen)
 			}
 		}
 		for i, json := range this.data {
-- 
2.43.0


From f32207f543ce26eaca7218eed960e6a40f31d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:59 +0000
Subject: [PATCH 30/41] fix: Marshal does not hang on deprecations that lead
 into a circle

---
 marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 6679e59..e34faab 100644
--- a/marshal.go
+++ b/marshal.go
@@ -141,13 +141,15 @@ func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool
 	depPairs := make([]JSONPair, 0, len(depFields))
 	for depKey, key := range depFields {
 		findLoop := false
+		visited := map[string]bool{depKey: true}
 		for {
 			if okey, ok := depFields[key]; ok {
-				if okey == depKey {
+				if visited[key] {
 					// loop detected
 					findLoop = true
 					break
 				}
+				visited[key] = true
 				key = okey
 			} else {
 				break
-- 
2.43.0


From ec4c429cd653bea78aa3f15da7133431a380ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 31/41] fix: a text with misplaced thousands separators is not
 read as an amount

---
 currency.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/currency.go b/currency.go
index b896aeb..07fa776 100644
--- a/currency.go
+++ b/currency.go
@@ -16,9 +16,15 @@ package jsonutils
 
 import (
 	"fmt"
+	"regexp"
 	"strings"
+)
 
-	"yunion.io/x/pkg/util/regutils"
+// every group behind the first one has exactly three digits, otherwise the
+// text is not an amount, e.g. 1.2.345
+var (
+	usCurrencyRegexp = regexp.MustCompile(`^[+-]?(\d{0,3}|\d{1,3}(,\d{3})+)(\.\d*)?$`)
+	euCurrencyRegexp = regexp.MustCompile(`^[+-]?(\d{0,3}|\d{1,3}(\.\d{3})+)(,\d*)?$`)
 )
 
 func normalizeUSCurrency(currency string) string {
@@ -35,10 +41,10 @@ func normalizeEUCurrency(currency string) string {
 }
 
 func normalizeCurrencyString(currency string) string {
-	if regutils.MatchUSCurrency(currency) {
+	if usCurrencyRegexp.MatchString(currency) {
 		return normalizeUSCurrency(currency)
 	}
-	if regutils.MatchEUCurrency(currency) {
+	if euCurrencyRegexp.MatchString(currency) {
 		return normalizeEUCurrency(currency)
 	}
 	return currency
-- 
2.43.0


From e52bd47f50232a033910b1ffc4beb5b53b91f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:07 +0000
Subject: [PATCH 32/41] fix: a map key with a String method is written as its
 own text

---
 marshal.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index e34faab..44f489f 100644
--- a/marshal.go
+++ b/marshal.go
@@ -85,7 +85,12 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 		key := keys[i]
 		val := s.marshalValue(val.MapIndex(key), nil, omitEmpty)
 		if val != nil {
-			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%s", key), val: val})
+			name := fmt.Sprintf("%s", key)
+			if key.Kind() == reflect.String {
+				// the text itself, not what a String method makes of it
+				name = key.String()
+			}
+			objPairs = append(objPairs, JSONPair{key: name, val: val})
 		}
 	}
 	dict := NewDict(objPairs...)
-- 
2.43.0


From 0b8d971ef35778ef126727a27d246dfe8c0074f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:22 +0000
Subject: [PATCH 33/41] fix: Interface() of a cyclic document recursed until
 the stack overflowed

---
 interface.go   | 51 ++++++++++++++++++++++++++++++++++++++++----------
 jsonpointer.go |  2 +-
 2 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/interface.go b/interface.go
index 7d2b7ed..844974d 100644
--- a/interface.go
+++ b/interface.go
@@ -39,20 +39,51 @@ func (self *JSONString) Interface() interface{} {
 }
 
 func (self *JSONArray) Interface() interface{} {
-	ret := make([]interface{}, len(self.data))
-	for i := 0; i < len(self.data); i += 1 {
-		ret[i] = self.data[i].Interface()
-	}
-	return ret
+	return newJsonInterfaceSession().value(self)
 }
 
 func (self *JSONDict) Interface() interface{} {
-	mapping := make(map[string]interface{})
+	return newJsonInterfaceSession().value(self)
+}
+
+// sJsonInterfaceSession keeps the map of every object exported, so that a
+// reference to an object (possibly to one that encloses it) yields its map
+type sJsonInterfaceSession struct {
+	nodes map[*JSONDict]map[string]interface{}
+}
 
-	for iter := sortedmap.NewIterator(self.data); iter.HasMore(); iter.Next() {
-		k, v := iter.Get()
-		mapping[k] = v.(JSONObject).Interface()
+func newJsonInterfaceSession() *sJsonInterfaceSession {
+	return &sJsonInterfaceSession{
+		nodes: make(map[*JSONDict]map[string]interface{}),
 	}
+}
 
-	return mapping
+func (s *sJsonInterfaceSession) value(obj JSONObject) interface{} {
+	switch v := obj.(type) {
+	case *JSONArray:
+		ret := make([]interface{}, len(v.data))
+		for i := 0; i < len(v.data); i += 1 {
+			ret[i] = s.value(v.data[i])
+		}
+		return ret
+	case *JSONDict:
+		mapping := make(map[string]interface{})
+		if v.nodeId > 0 {
+			s.nodes[v] = mapping
+		}
+		for iter := sortedmap.NewIterator(v.data); iter.HasMore(); iter.Next() {
+			k, val := iter.Get()
+			mapping[k] = s.value(val.(JSONObject))
+		}
+		return mapping
+	case *sJSONPointer:
+		if dict, ok := v.node.(*JSONDict); ok {
+			if mapping, ok := s.nodes[dict]; ok {
+				return mapping
+			}
+		}
+		return s.value(v.getNode())
+	default:
+		return obj.Interface()
+	}
 }
diff --git a/jsonpointer.go b/jsonpointer.go
index 269e837..0cb1484 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -172,7 +172,7 @@ func (ptr *sJSONPointer) Equals(obj JSONObject) bool {
 }
 
 func (ptr *sJSONPointer) Interface() interface{} {
-	return ptr.getNode().Interface()
+	return newJsonInterfaceSession().value(ptr)
 }
 
 func (ptr *sJSONPointer) isCompond() bool {
-- 
2.43.0


From 2b171423da1bcb9c8f0e10cb2c05d1a06781d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:22 +0000
Subject: [PATCH 34/41] fix: documents with node references were not equal to
 their copies

---
 jsonpointer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpointer.go b/jsonpointer.go
index 0cb1484..7f679c9 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -168,6 +168,9 @@ func (ptr *sJSONPointer) Unmarshal(obj interface{}, keys ...string) error {
 }
 
 func (ptr *sJSONPointer) Equals(obj JSONObject) bool {
+	if ptr2, ok := obj.(*sJSONPointer); ok {
+		return ptr.nodeId == ptr2.nodeId
+	}
 	return ptr.getNode().Equals(obj)
 }
 
-- 
2.43.0


From 56095b98b34705e47c249f44868740ea7a4d9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 35/41] fix: a null document inside a value was marshalled as
 an empty object

---
 marshal.go | 2 +-
 reflect.go | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 44f489f..6acdd61 100644
--- a/marshal.go
+++ b/marshal.go
@@ -295,7 +295,7 @@ func (s *sJsonMarshalSession) marshalValueWithObjectMap(objValue reflect.Value,
 
 func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
 	switch objValue.Type() {
-	case JSONDictPtrType, JSONArrayPtrType, JSONBoolPtrType, JSONIntPtrType, JSONFloatPtrType, JSONStringPtrType, JSONObjectType:
+	case JSONDictPtrType, JSONArrayPtrType, JSONBoolPtrType, JSONIntPtrType, JSONFloatPtrType, JSONStringPtrType, jsonValuePtrType, jsonPointerPtrType, JSONObjectType:
 		if objValue.IsNil() {
 			if omitEmpty {
 				return nil
diff --git a/reflect.go b/reflect.go
index db73dd7..732d98c 100644
--- a/reflect.go
+++ b/reflect.go
@@ -35,6 +35,9 @@ var (
 	JSONFloatPtrType  reflect.Type
 	JSONBoolPtrType   reflect.Type
 	JSONObjectType    reflect.Type
+
+	jsonValuePtrType   reflect.Type
+	jsonPointerPtrType reflect.Type
 )
 
 func init() {
@@ -51,6 +54,8 @@ func init() {
 	JSONFloatPtrType = reflect.TypeOf(&JSONFloat{})
 	JSONBoolPtrType = reflect.TypeOf(&JSONBool{})
 	JSONObjectType = reflect.TypeOf((*JSONObject)(nil)).Elem()
+	jsonValuePtrType = reflect.TypeOf(&JSONValue{})
+	jsonPointerPtrType = reflect.TypeOf(&sJSONPointer{})
 
 	gotypes.RegisterSerializable(JSONObjectType, func() gotypes.ISerializable {
 		return nil
-- 
2.43.0


From 1ea7d748cb435b061cce4e776fae9df2d76c062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:44 +0000
Subject: [PATCH 36/41] fix: references in a parsed document were not linked to
 their nodes

---
 parse_session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse_session.go b/parse_session.go
index 0f532dd..7b6b23d 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -40,6 +40,7 @@ func newJsonParseSession() *sJsonParseSession {
 func (s *sJsonParseSession) saveReferer(nodeId int, ptr *sJSONPointer) {
 	if nr, ok := s.objectMap[nodeId]; ok {
 		nr.pointers = append(nr.pointers, ptr)
+		ptr.node = nr.node
 	} else {
 		s.objectMap[nodeId] = &sNodeReferer{
 			pointers: []*sJSONPointer{ptr},
@@ -53,6 +54,9 @@ func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) error {
 			return errors.Wrapf(errors.ErrInvalidStatus, "duplicate node id %d", nodeId)
 		} else {
 			nr.node = node
+			for _, ptr := range nr.pointers {
+				ptr.node = node
+			}
 		}
 	} else {
 		s.objectMap[nodeId] = &sNodeReferer{
-- 
2.43.0


From 5be4f2a9baf5fcece8eee40382cc34fade7c132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:53 +0000
Subject: [PATCH 37/41] fix: a fraction below one became false in a tri-state

A number of absolute value below one was truncated before it was compared
to zero, so that 0.5 read into a TriState or a JSONBool gave false, while
a bool field gets true.
---
 unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index bf9f3e1..83ce979 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -270,13 +270,13 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		return nil
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
-		json.data = (int(this.data) != 0)
+		json.data = (this.data != 0)
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONFloat type mismatch %s", val.Type())
 	case tristate.TriStateType:
-		if int(this.data) == 0 {
+		if this.data == 0 {
 			val.Set(tristate.TriStateFalseValue)
 		} else {
 			val.Set(tristate.TriStateTrueValue)
-- 
2.43.0


From 3c28fe188a7ecbb1392830ba19cce12e25e0d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:47 +0000
Subject: [PATCH 38/41] fix: a float written or read as text lost all digits
 past the sixth decimal

---
 marshal.go   | 4 ++--
 unmarshal.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/marshal.go b/marshal.go
index 6acdd61..ce422ff 100644
--- a/marshal.go
+++ b/marshal.go
@@ -187,7 +187,7 @@ func marshalFloat64(val float64, info *reflectutils.SStructFieldInfo, bit int, o
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(NewFloat64(val).String())
 	} else {
 		return NewFloat64(val)
 	}
@@ -197,7 +197,7 @@ func marshalFloat32(val float32, info *reflectutils.SStructFieldInfo, bit int, o
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(NewFloat32(val).String())
 	} else {
 		return NewFloat32(val)
 	}
diff --git a/unmarshal.go b/unmarshal.go
index 83ce979..6c01051 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -253,11 +253,11 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		return nil
 	case JSONStringType:
 		json := val.Interface().(JSONString)
-		json.data = fmt.Sprintf("%f", this.data)
+		json.data = this.String()
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
-		data := fmt.Sprintf("%f", this.data)
+		data := this.String()
 		val.Set(reflect.ValueOf(NewString(data)))
 		return nil
 	case JSONIntType:
@@ -297,7 +297,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 			val.SetBool(true)
 		}
 	case reflect.String:
-		val.SetString(fmt.Sprintf("%f", this.data))
+		val.SetString(this.String())
 	case reflect.Ptr:
 		if val.IsNil() {
 			val.Set(reflect.New(val.Type().Elem()))
-- 
2.43.0


From c455b1dcb725a5e020ac23b2aa01952dc8c4fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:34 +0000
Subject: [PATCH 39/41] fix: unmarshalling into a filled JSONArray kept its old
 elements

---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 6c01051..a954909 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -436,7 +436,8 @@ func (this *JSONArray) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONArrayType:
-		array := val.Interface().(JSONArray)
+		// a list is replaced, nothing of the old elements remains
+		array := JSONArray{}
 		if this.data != nil {
 			array.Add(this.data...)
 		}
-- 
2.43.0


From 795a232679a90abf361161a064a403f6f9d1f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:45 +0000
Subject: [PATCH 40/41] fix: ParseJsonStreams keeps an error per unclosed
 bracket, which exhaust the memory

---
 jsonutils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 02db1ea..f049819 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -727,9 +727,14 @@ func ParseStream(str []byte, offset int) (JSONObject, int, error) {
 	}
 }
 
+// maxStreamErrors bounds the errors kept by ParseJsonStreams. A run of unclosed brackets
+// gives an error for each of them, each as long as its nesting: all together exhaust the memory
+const maxStreamErrors = 32
+
 func ParseJsonStreams(stream []byte) ([]JSONObject, error) {
 	ret := make([]JSONObject, 0)
 	errs := make([]error, 0)
+	errCnt := 0
 	offset := 0
 	for offset < len(stream) {
 		for offset < len(stream) && stream[offset] != '[' && stream[offset] != '{' {
@@ -740,7 +745,10 @@ func ParseJsonStreams(stream []byte) ([]JSONObject, error) {
 		}
 		json, noffset, err := ParseStream(stream, offset)
 		if err != nil {
-			errs = append(errs, errors.Wrapf(err, "jsonutils.ParseStream fail at %d", offset))
+			errCnt++
+			if len(errs) < maxStreamErrors {
+				errs = append(errs, errors.Wrapf(err, "jsonutils.ParseStream fail at %d", offset))
+			}
 			offset++
 		} else {
 			ret = append(ret, json)
@@ -751,7 +759,7 @@ func ParseJsonStreams(stream []byte) ([]JSONObject, error) {
 		return nil, errors.NewAggregate(errs)
 	}
 	if len(errs) > 0 {
-		log.Warningf("jsonutils.ParseJsonStreams: %d errors, %s", len(errs), errors.NewAggregate(errs))
+		log.Warningf("jsonutils.ParseJsonStreams: %d errors, %s", errCnt, errors.NewAggregate(errs))
 	}
 	return ret, nil
 }
-- 
2.43.0


From 7e3189874950a70361be959822558d780c47a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:45 +0000
Subject: [PATCH 41/41] fix: unmarshalling a path that ends in a node reference
 leaves the target empty

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index a954909..76da948 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -73,6 +73,10 @@ func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 		if err != nil {
 			return errors.Wrap(err, "Get")
 		}
+		if ptr, ok := jo.(*sJSONPointer); ok {
+			// a reference found by its path stands for the object it refers to
+			jo = ptr.getNode()
+		}
 	}
 	s := newJsonUnmarshalSession()
 	value := reflect.ValueOf(o)
-- 
2.43.0

