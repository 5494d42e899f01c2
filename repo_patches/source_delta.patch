From 23d329612ff56baa6ae8bd8d46fe96ae5d7ef905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 01/42] fix: report an error for a missing value instead of an
 index panic

---
 jsonutils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 97e6883..d62e718 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -259,6 +259,8 @@ func (s *sJsonParseSession) parseJSONValue(str []byte, offset int) (JSONObject,
 		return nil, i, errors.Wrap(e, "parseString")
 	} else if quote {
 		return &JSONString{data: val}, i, nil
+	} else if len(val) == 0 {
+		return nil, i, NewJSONError(str, i, "Empty value")
 	} else if val[0] == '<' && val[len(val)-1] == '>' {
 		// Pointer <nnnn>
 		val = val[1 : len(val)-1]
-- 
2.43.0


From 002a2cc2edd1dca05d4e2c0b0320d6de3d9a5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 02/42] fix: reject a dictionary, array or quoted string cut
 short by the end of input

---
 jsonutils.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index d62e718..95c3160 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -167,7 +167,6 @@ func parseQuoteString(str []byte, offset int, quotec byte) (string, int, error)
 		runen     int
 		i         = offset
 	)
-ret:
 	for i < len(str) {
 		switch str[i] {
 		case '\\':
@@ -223,14 +222,13 @@ ret:
 				return "", i, NewJSONError(str, i, "Incomplete escape")
 			}
 		case quotec:
-			i++
-			break ret
+			return string(buffer), i + 1, nil
 		default:
 			buffer = append(buffer, str[i])
 			i++
 		}
 	}
-	return string(buffer), i, nil
+	return "", i, NewJSONError(str, i, "Incomplete string")
 }
 
 func parseString(str []byte, offset int) (string, bool, int, error) {
@@ -496,6 +494,9 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			return smap, i, nodeId, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return smap, i, nodeId, NewJSONError(str, i, "Truncated")
+	}
 	return smap, i, nodeId, nil
 }
 
@@ -550,6 +551,9 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 			return list, i, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return list, i, NewJSONError(str, i, "Truncated")
+	}
 	return list, i, nil
 }
 
-- 
2.43.0


From 29ba97fd1597ae1065e9e78f43d900861f840658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 03/42] fix: report malformed and repeated node ids as errors
 instead of panicking

---
 jsonutils.go     | 11 +++++++++--
 parse_session.go |  7 ++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 95c3160..6a190ca 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -476,7 +476,11 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 		}
 		if key == jsonPointerKey {
 			// node id
-			nodeId = int(val.(*JSONInt).data)
+			ival, ok := val.(*JSONInt)
+			if !ok {
+				return smap, i, nodeId, NewJSONError(str, i, "Invalid node id")
+			}
+			nodeId = int(ival.data)
 		} else {
 			smap = sortedmap.Add(smap, key, val)
 		}
@@ -563,7 +567,10 @@ func (this *JSONDict) parse(s *sJsonParseSession, str []byte, offset int) (int,
 		this.nodeId = nodeId
 		this.data = smap
 		if this.nodeId > 0 {
-			s.saveNode(nodeId, this)
+			e = s.saveNode(nodeId, this)
+			if e != nil {
+				return i, errors.Wrap(e, "saveNode")
+			}
 		}
 		return i, nil
 	}
diff --git a/parse_session.go b/parse_session.go
index 632dce9..c6c4e34 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -15,7 +15,7 @@
 package jsonutils
 
 import (
-	"fmt"
+	"yunion.io/x/pkg/errors"
 )
 
 type sNodeReferer struct {
@@ -43,10 +43,10 @@ func (s *sJsonParseSession) saveReferer(nodeId int, ptr *sJSONPointer) {
 	}
 }
 
-func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
+func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) error {
 	if nr, ok := s.objectMap[nodeId]; ok {
 		if nr.node != nil {
-			panic(fmt.Sprintf("nodeId %d alreayd exists: %s != %s", nodeId, nr.node, node))
+			return errors.Wrapf(errors.ErrInvalidStatus, "nodeId %d already exists", nodeId)
 		} else {
 			nr.node = node
 		}
@@ -56,4 +56,5 @@ func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
 			pointers: nil,
 		}
 	}
+	return nil
 }
-- 
2.43.0


From d83ac5bbdf0a3c289425455cbcde9c62977a3fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 04/42] fix: rendering a float does not write to it, so
 concurrent readers do not race

---
 string.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index dfa791b..cf56025 100644
--- a/string.go
+++ b/string.go
@@ -33,10 +33,11 @@ func (this *JSONInt) String() string {
 }
 
 func (this *JSONFloat) String() string {
-	if this.bit != 32 && this.bit != 64 {
-		this.bit = 64
+	bit := this.bit
+	if bit != 32 && bit != 64 {
+		bit = 64
 	}
-	return strconv.FormatFloat(this.data, 'f', -1, this.bit)
+	return strconv.FormatFloat(this.data, 'f', -1, bit)
 }
 
 func (this *JSONBool) String() string {
-- 
2.43.0


From 7d0e0a4c93a394990947bc39d409eea9aa7ca0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 05/42] fix: store the decoded scalar in document fields held
 by value

---
 unmarshal.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 4209253..c3aa4bf 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -88,6 +88,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONIntPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -95,6 +96,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = fmt.Sprintf("%d", this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -154,6 +156,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONBoolPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -161,6 +164,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = strconv.FormatBool(this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -225,6 +229,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONFloatType:
 		json := val.Interface().(JSONFloat)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONFloatPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -232,6 +237,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = fmt.Sprintf("%f", this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -246,6 +252,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
 		json.data = int64(this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONIntPtrType:
 		json := val.Interface().(*JSONInt)
@@ -259,6 +266,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
 		json.data = (int(this.data) != 0)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONFloat type mismatch %s", val.Type())
@@ -308,6 +316,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -333,6 +342,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			json.data = false
 		}
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONBoolPtrType:
 		json := val.Interface().(*JSONBool)
-- 
2.43.0


From 1e64e514d0479c0f6a58d5791e97f9bd4dbbdbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 06/42] fix: decoding into a document pointer sets a fresh node
 and never writes to the node it held

---
 unmarshal.go | 42 +++++-------------------------------------
 1 file changed, 5 insertions(+), 37 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index c3aa4bf..65c6a72 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -99,14 +99,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%d", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%d", this.data))))
 		return nil
 	case JSONBoolType, JSONFloatType, JSONArrayType, JSONDictType, JSONBoolPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONInt type mismatch %s", val.Type())
@@ -167,14 +160,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := strconv.FormatBool(this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(strconv.FormatBool(this.data))))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONBool type mismatch %s", val.Type())
@@ -240,14 +226,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%f", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%f", this.data))))
 		return nil
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
@@ -255,13 +234,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONIntPtrType:
-		json := val.Interface().(*JSONInt)
-		if json == nil {
-			json = NewInt(int64(this.data))
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = int64(this.data)
-		}
+		val.Set(reflect.ValueOf(NewInt(int64(this.data))))
 		return nil
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
@@ -345,7 +318,6 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONBoolPtrType:
-		json := val.Interface().(*JSONBool)
 		var data bool
 		switch strings.ToLower(this.data) {
 		case "true", "yes", "on", "1":
@@ -353,11 +325,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			data = false
 		}
-		if json == nil {
-			json = &JSONBool{data: data}
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewBool(data)))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType,
 		JSONBoolPtrType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
-- 
2.43.0


From 036dc4196c0ddf3f0b596edc6062f9be89f9936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 07/42] fix: decode booleans and floats into unsigned integers
 instead of panicking

---
 unmarshal.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 65c6a72..1538c91 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -172,13 +172,18 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		if this.data {
 			val.SetInt(1)
 		} else {
 			val.SetInt(0)
 		}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if this.data {
+			val.SetUint(1)
+		} else {
+			val.SetUint(0)
+		}
 	case reflect.Float32, reflect.Float64:
 		if this.data {
 			val.SetFloat(1.0)
@@ -251,9 +256,10 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		val.SetInt(int64(this.data))
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		val.SetUint(uint64(this.data))
 	case reflect.Float32, reflect.Float64:
 		val.SetFloat(this.data)
 	case reflect.Bool:
-- 
2.43.0


From b3af07df31a9399524457c893b6398dc4d722971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 08/42] fix: report a type mismatch when a value does not fit
 an interface field instead of panicking

---
 unmarshal.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 1538c91..6689c12 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -71,6 +71,15 @@ func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	return nil
 }
 
+func setInterfaceValue(val reflect.Value, data interface{}) error {
+	dataVal := reflect.ValueOf(data)
+	if !dataVal.Type().AssignableTo(val.Type()) {
+		return errors.Wrapf(ErrTypeMismatch, "%s vs. %s", dataVal.Type(), val.Type())
+	}
+	val.Set(dataVal)
+	return nil
+}
+
 func (this *JSONValue) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	if val.CanSet() {
 		zeroVal := reflect.New(val.Type()).Elem()
@@ -133,7 +142,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONInt vs. %s", val.Type())
 	}
@@ -204,7 +213,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONBool vs. %s", val.Type())
 	}
@@ -276,7 +285,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONFloat vs. %s", val.Type())
 	}
@@ -381,7 +390,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	case reflect.Slice:
 		dataLen := 1
 		if val.Cap() < dataLen {
@@ -431,7 +440,7 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
 			if val.Len() != len(this.data) {
-- 
2.43.0


From 024e1cbc0aadcba550c23be3683e2197a8ba9c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 09/42] fix: encoding a document held by value does not share
 its member list

---
 marshal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marshal.go b/marshal.go
index 12d6c1e..ff5630d 100644
--- a/marshal.go
+++ b/marshal.go
@@ -303,6 +303,7 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 			if len(json.data) == 0 && info != nil && info.OmitEmpty && omitEmpty {
 				return nil
 			} else {
+				json.data = json.Copy().data
 				return &json
 			}
 		} else {
@@ -314,6 +315,7 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 			if len(json.data) == 0 && info != nil && info.OmitEmpty && omitEmpty {
 				return nil
 			} else {
+				json.data = json.Copy().data
 				return &json
 			}
 		} else {
-- 
2.43.0


From 20ce219e223acfbb39c6f4efa6f816ca9fcb2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 10/42] fix: decoding a list into an interface hands out a list
 of its own

---
 unmarshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 6689c12..5416e24 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -440,7 +440,9 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
-		return setInterfaceValue(val, this.data)
+		// hand out a list of its own
+		list, _ := this.GetArray()
+		return setInterfaceValue(val, list)
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
 			if val.Len() != len(this.data) {
-- 
2.43.0


From bdbd3fafcdd4294ffb6e2b852ffba12703d88c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 11/42] fix: resolve forward references, also inside map
 values, and report references that do not fit their field

---
 jsonpointer.go       |  4 +++
 unmarshal.go         |  9 +++--
 unmarshal_session.go | 83 +++++++++++++++++++++++++++++++++-----------
 3 files changed, 73 insertions(+), 23 deletions(-)

diff --git a/jsonpointer.go b/jsonpointer.go
index b525c7c..269e837 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -73,6 +73,10 @@ func (dict *JSONDict) setNodeId(nodeId int) {
 }
 
 func (ptr *sJSONPointer) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
+	if val.Type() == JSONObjectType {
+		val.Set(reflect.ValueOf(ptr))
+		return nil
+	}
 	return s.setPointerValue(ptr.nodeId, val)
 }
 
diff --git a/unmarshal.go b/unmarshal.go
index 5416e24..45dba8a 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -470,8 +470,11 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 }
 
 func (this *JSONDict) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
-	if this.nodeId > 0 && val.CanAddr() {
-		s.saveNodeValue(this.nodeId, val.Addr())
+	if this.nodeId > 0 && val.CanAddr() && val.Kind() != reflect.Ptr && val.Kind() != reflect.Interface {
+		err := s.saveNodeValue(this.nodeId, val.Addr())
+		if err != nil {
+			return errors.Wrap(err, "saveNodeValue")
+		}
 	}
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
@@ -564,7 +567,7 @@ func (this *JSONDict) unmarshalMap(s *sJsonUnmarshalSession, val reflect.Value)
 		if err != nil {
 			return errors.Wrap(err, "JSONDict.unmarshalMap")
 		}
-		val.SetMapIndex(keyVal, valVal)
+		s.setMapEntry(val, keyVal, valVal)
 	}
 	return nil
 }
diff --git a/unmarshal_session.go b/unmarshal_session.go
index 1b5d89c..900d799 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -16,6 +16,8 @@ package jsonutils
 
 import (
 	"reflect"
+
+	"yunion.io/x/pkg/errors"
 )
 
 type sJsonNodeValues struct {
@@ -24,8 +26,17 @@ type sJsonNodeValues struct {
 	targetValues []reflect.Value
 }
 
+// sJsonMapEntry is a map entry decoded while references were pending
+type sJsonMapEntry struct {
+	mapValue reflect.Value
+	key      reflect.Value
+	value    reflect.Value
+}
+
 type sJsonUnmarshalSession struct {
-	objectMap map[int]*sJsonNodeValues
+	objectMap  map[int]*sJsonNodeValues
+	pending    int
+	mapEntries []sJsonMapEntry
 }
 
 func newJsonUnmarshalSession() *sJsonUnmarshalSession {
@@ -34,34 +45,66 @@ func newJsonUnmarshalSession() *sJsonUnmarshalSession {
 	}
 }
 
-func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
-	if nv, ok := s.objectMap[nodeId]; !ok {
+func setNodePointer(target reflect.Value, node reflect.Value) error {
+	if !node.Type().AssignableTo(target.Type()) {
+		return errors.Wrapf(ErrTypeMismatch, "reference to %s vs. %s", node.Type(), target.Type())
+	}
+	target.Set(node)
+	return nil
+}
+
+func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) error {
+	nv, ok := s.objectMap[nodeId]
+	if !ok {
 		s.objectMap[nodeId] = &sJsonNodeValues{
 			nodeValue:    val,
 			nodeValueSet: true,
 		}
-	} else {
-		nv.nodeValue = val
-		nv.nodeValueSet = true
-		for i := range nv.targetValues {
-			nv.targetValues[i].Set(val)
+		return nil
+	}
+	nv.nodeValue = val
+	nv.nodeValueSet = true
+	targets := nv.targetValues
+	nv.targetValues = nil
+	if len(targets) == 0 {
+		return nil
+	}
+	s.pending -= len(targets)
+	errs := make([]error, 0)
+	for i := range targets {
+		err := setNodePointer(targets[i], val)
+		if err != nil {
+			errs = append(errs, err)
 		}
-		nv.targetValues = nil
+	}
+	// maps hold copies of the values that have just been completed
+	for _, entry := range s.mapEntries {
+		entry.mapValue.SetMapIndex(entry.key, entry.value)
+	}
+	if s.pending == 0 {
+		s.mapEntries = nil
+	}
+	return errors.NewAggregate(errs)
+}
+
+// setMapEntry stores a decoded map value, again later if it still waits for references
+func (s *sJsonUnmarshalSession) setMapEntry(mapValue, key, value reflect.Value) {
+	mapValue.SetMapIndex(key, value)
+	if s.pending > 0 {
+		s.mapEntries = append(s.mapEntries, sJsonMapEntry{mapValue: mapValue, key: key, value: value})
 	}
 }
 
 func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) error {
-	if nv, ok := s.objectMap[nodeId]; ok && nv.nodeValueSet {
-		val.Set(nv.nodeValue)
-	} else if ok && !nv.nodeValueSet {
-		nv.targetValues = append(nv.targetValues, val)
-	} else {
-		s.objectMap[nodeId] = &sJsonNodeValues{
-			nodeValueSet: false,
-			targetValues: []reflect.Value{
-				val,
-			},
-		}
+	nv, ok := s.objectMap[nodeId]
+	if ok && nv.nodeValueSet {
+		return setNodePointer(val, nv.nodeValue)
+	}
+	if !ok {
+		nv = &sJsonNodeValues{}
+		s.objectMap[nodeId] = nv
 	}
+	nv.targetValues = append(nv.targetValues, val)
+	s.pending++
 	return nil
 }
-- 
2.43.0


From 58efe4ec05746aba1367c5a218622d1ecb179303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 12/42] fix: number referenced nodes in a fixed order

---
 jsonpointer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpointer.go b/jsonpointer.go
index 269e837..527cc68 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -49,7 +49,10 @@ func (s *sJsonMarshalSession) setJsonObject(ptr *sJSONPointer, obj JSONObject) {
 }
 
 func (s *sJsonMarshalSession) setAllNodeId() {
-	for nodeId, jsonPtrNode := range s.nodeMap {
+	// from the innermost to the outermost, so that an object known by several
+	// node ids always ends up with the same one
+	for nodeId := s.nodeIndex; nodeId > 0; nodeId-- {
+		jsonPtrNode := s.nodeMap[nodeId]
 		if jsonPtrNode.refcnt > 1 && jsonPtrNode.pointer.node != nil {
 			jsonPtrNode.pointer.node.(*JSONDict).setNodeId(nodeId)
 		}
-- 
2.43.0


From 1000764fecbb7e5cb0aa14c68ba77118110fb828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 13/42] fix: render and sort map keys that are not strings by
 their value

---
 marshal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index ff5630d..2f69252 100644
--- a/marshal.go
+++ b/marshal.go
@@ -64,7 +64,14 @@ type tMapKeys []reflect.Value
 
 func (a tMapKeys) Len() int           { return len(a) }
 func (a tMapKeys) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
-func (a tMapKeys) Less(i, j int) bool { return a[i].String() < a[j].String() }
+func (a tMapKeys) Less(i, j int) bool { return mapKeyText(a[i]) < mapKeyText(a[j]) }
+
+func mapKeyText(key reflect.Value) string {
+	if key.Kind() == reflect.String {
+		return key.String()
+	}
+	return fmt.Sprintf("%v", key)
+}
 
 func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
 	if val.IsNil() {
@@ -85,7 +92,7 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 		key := keys[i]
 		val := s.marshalValue(val.MapIndex(key), nil, omitEmpty)
 		if val != nil {
-			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%s", key), val: val})
+			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%v", key), val: val})
 		}
 	}
 	dict := NewDict(objPairs...)
-- 
2.43.0


From ebf6f7729cc573584721027220640dbc2e72a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 14/42] fix: escape member names in the indented form

---
 jsonutils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 6a190ca..04d9fc8 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -604,9 +604,8 @@ func (this *JSONDict) prettyString(level int) string {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 		buffer.WriteString("  ")
-		buffer.WriteByte('"')
-		buffer.WriteString(k)
-		buffer.WriteString("\":")
+		buffer.WriteString(quoteString(k))
+		buffer.WriteByte(':')
 		_, okdict := v.(*JSONDict)
 		_, okarray := v.(*JSONArray)
 		if okdict || okarray {
-- 
2.43.0


From b93bb34e793b06ff18a288fe679afbf71350aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 15/42] fix: keep node ids in the indented form

---
 jsonutils.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 04d9fc8..796cc6c 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -595,6 +595,15 @@ func (this *JSONDict) prettyString(level int) string {
 	buffer.WriteString(tab)
 	buffer.WriteByte('{')
 	var idx = 0
+	if this.nodeId > 0 {
+		buffer.WriteByte('\n')
+		buffer.WriteString(tab)
+		buffer.WriteString("  ")
+		buffer.WriteString(quoteString(jsonPointerKey))
+		buffer.WriteString(": ")
+		buffer.WriteString(strconv.Itoa(this.nodeId))
+		idx++
+	}
 	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
 		k, vInf := iter.Get()
 		v := vInf.(JSONObject)
@@ -617,7 +626,7 @@ func (this *JSONDict) prettyString(level int) string {
 		}
 		idx++
 	}
-	if len(this.data) > 0 {
+	if idx > 0 {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 	}
-- 
2.43.0


From 59813dba378ae5e4f2e1712e2a554875aad03bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 16/42] fix: a bracket does not start a member name, so a cut
 record does not swallow the next one

---
 jsonutils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 796cc6c..b27dd2a 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -441,6 +441,10 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			i++
 			continue
 		}
+		if str[i] == '{' || str[i] == '[' {
+			// a bracket cannot start a key: the record was cut short
+			return smap, i, nodeId, NewJSONError(str, i, "key not found")
+		}
 		key, _, i, e = parseString(str, i)
 		if e != nil {
 			return smap, i, nodeId, errors.Wrap(e, "parseString")
-- 
2.43.0


From 9a147e3f3883788d18dffa74a7b84e3ed6b59d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 17/42] fix: decode escaped surrogate pairs as one character

---
 jsonutils.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index b27dd2a..5bc39da 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -20,6 +20,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	"yunion.io/x/log"
@@ -182,9 +183,19 @@ func parseQuoteString(str []byte, offset int, quotec byte) (string, int, error)
 					if e != nil {
 						return "", i, NewJSONError(str, i, e.Error())
 					}
+					i += 4
+					if utf16.IsSurrogate(r) && i+6 < len(str) && str[i] == '\\' && str[i+1] == 'u' {
+						// a surrogate pair is one character
+						r2, e := hexstr2rune(str[i+2 : i+6])
+						if e == nil {
+							if dec := utf16.DecodeRune(r, r2); dec != utf8.RuneError {
+								r = dec
+								i += 6
+							}
+						}
+					}
 					runen = utf8.EncodeRune(runebytes, r)
 					buffer = append(buffer, runebytes[0:runen]...)
-					i += 4
 				case 'x':
 					i++
 					if i+2 >= len(str) {
-- 
2.43.0


From db75d5c403cf8fadc4c00972566d480721c33968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 18/42] fix: end the search for a field's successor when the
 declarations form a loop

---
 marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 2f69252..9239ec8 100644
--- a/marshal.go
+++ b/marshal.go
@@ -148,13 +148,15 @@ func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool
 	depPairs := make([]JSONPair, 0, len(depFields))
 	for depKey, key := range depFields {
 		findLoop := false
+		visited := map[string]bool{depKey: true, key: true}
 		for {
 			if okey, ok := depFields[key]; ok {
-				if okey == depKey {
+				if visited[okey] {
 					// loop detected
 					findLoop = true
 					break
 				}
+				visited[okey] = true
 				key = okey
 			} else {
 				break
-- 
2.43.0


From 09abb11f0da1e61a079043d0da06f1868bffeeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 19/42] fix: encode named boolean types instead of panicking

---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 9239ec8..a88076a 100644
--- a/marshal.go
+++ b/marshal.go
@@ -397,7 +397,7 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 		strValue := objValue.Convert(gotypes.StringType)
 		return marshalString(strValue.Interface().(string), info, omitEmpty)
 	case reflect.Bool:
-		return marshalBoolean(objValue.Interface().(bool), info, omitEmpty)
+		return marshalBoolean(objValue.Bool(), info, omitEmpty)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		intValue := objValue.Convert(gotypes.Int64Type)
-- 
2.43.0


From 55010e317dc3d11259d275a5df04651fc0d04896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 20/42] fix: write large unsigned integers in text form with
 their own value

---
 marshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marshal.go b/marshal.go
index a88076a..071f1e0 100644
--- a/marshal.go
+++ b/marshal.go
@@ -23,8 +23,10 @@ Convert any object to JSONObject
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
+	"strconv"
 	"time"
 
 	"yunion.io/x/log"
@@ -400,6 +402,9 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 		return marshalBoolean(objValue.Bool(), info, omitEmpty)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if info != nil && info.ForceString && objValue.CanUint() && objValue.Uint() > math.MaxInt64 {
+			return NewString(strconv.FormatUint(objValue.Uint(), 10))
+		}
 		intValue := objValue.Convert(gotypes.Int64Type)
 		return marshalInt64(intValue.Interface().(int64), info, omitEmpty)
 	case reflect.Float32:
-- 
2.43.0


From 9ed7f86c5c1e1dcb42b5267a43825edce431bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 21/42] fix: write floats in text form without losing digits

---
 marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index 071f1e0..940c320 100644
--- a/marshal.go
+++ b/marshal.go
@@ -191,7 +191,7 @@ func marshalFloat64(val float64, info *reflectutils.SStructFieldInfo, bit int, o
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(strconv.FormatFloat(val, 'f', -1, 64))
 	} else {
 		return NewFloat64(val)
 	}
@@ -201,7 +201,7 @@ func marshalFloat32(val float32, info *reflectutils.SStructFieldInfo, bit int, o
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(strconv.FormatFloat(float64(val), 'f', -1, 32))
 	} else {
 		return NewFloat32(val)
 	}
-- 
2.43.0


From 45e8949e9bcdb3776b034d5d21243b4ca5f420d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 22/42] fix: deep copies keep node ids and references instead
 of losing the members that hold them

---
 clone.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/clone.go b/clone.go
index f92cfc3..4644e37 100644
--- a/clone.go
+++ b/clone.go
@@ -82,6 +82,23 @@ func (this *JSONDict) DeepCopy() interface{} {
 }
 
 func DeepCopy(obj JSONObject) JSONObject {
+	s := &sDeepCopySession{nodes: make(map[JSONObject]JSONObject)}
+	ret := s.deepCopy(obj)
+	// references inside the copy refer to nodes of the copy
+	for _, ptr := range s.pointers {
+		if node, ok := s.nodes[ptr.node]; ok {
+			ptr.node = node
+		}
+	}
+	return ret
+}
+
+type sDeepCopySession struct {
+	nodes    map[JSONObject]JSONObject
+	pointers []*sJSONPointer
+}
+
+func (s *sDeepCopySession) deepCopy(obj JSONObject) JSONObject {
 	if obj == nil || reflect.ValueOf(obj).IsNil() {
 		return nil
 	}
@@ -102,7 +119,7 @@ func DeepCopy(obj JSONObject) JSONObject {
 		elemsC := make([]JSONObject, v.Length())
 		for i := 0; i < v.Length(); i++ {
 			elem, _ := v.GetAt(i)
-			elemC := DeepCopy(elem)
+			elemC := s.deepCopy(elem)
 			elemsC[i] = elemC
 		}
 		vc := NewArray(elemsC...)
@@ -111,10 +128,18 @@ func DeepCopy(obj JSONObject) JSONObject {
 		vc := NewDict()
 		m, _ := v.GetMap()
 		for mk, mv := range m {
-			mvc := DeepCopy(mv)
+			mvc := s.deepCopy(mv)
 			vc.Set(mk, mvc)
 		}
+		vc.nodeId = v.nodeId
+		if v.nodeId > 0 {
+			s.nodes[v] = vc
+		}
 		return vc
+	case *sJSONPointer:
+		vc := *v
+		s.pointers = append(s.pointers, &vc)
+		return &vc
 	case *JSONValue:
 		vc := *v
 		return &vc
-- 
2.43.0


From 65d9429dfd2e650f62bf7a32b738f53f7c61ee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 23/42] fix: asking a dictionary member that is a dictionary
 for a number or boolean no longer recurses endlessly

---
 access.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/access.go b/access.go
index 7d687d3..4db6cc6 100644
--- a/access.go
+++ b/access.go
@@ -384,6 +384,9 @@ func (this *JSONDict) Int(keys ...string) (int64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonInt
+	}
 	return obj.Int()
 	/* jint, ok := obj.(*JSONInt)
 	   if ! ok {
@@ -430,6 +433,9 @@ func (this *JSONDict) Float(keys ...string) (float64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonFloat
+	}
 	return obj.Float()
 	/* jfloat, ok := obj.(*JSONFloat)
 	   if ! ok {
@@ -470,6 +476,9 @@ func (this *JSONDict) Bool(keys ...string) (bool, error) {
 	if err != nil {
 		return false, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return false, ErrInvalidJsonBoolean
+	}
 	return obj.Bool()
 	/* jbool, ok := obj.(*JSONBool)
 	   if ! ok {
-- 
2.43.0


From aae9d34fc3d96e78dcb5d93eb298d06e3421e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 24/42] fix: decoding a list into a list held by value replaces
 its content, like for slices, instead of appending

---
 unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 45dba8a..08ea224 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -413,7 +413,7 @@ func (this *JSONArray) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONArrayType:
-		array := val.Interface().(JSONArray)
+		array := JSONArray{}
 		if this.data != nil {
 			array.Add(this.data...)
 		}
-- 
2.43.0


From 5bfaf60de5e71798a5bafa39246d377ac72ff34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 25/42] fix: fail when an encoding hook returns more than one
 value instead of dropping the rest

---
 std_json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/std_json.go b/std_json.go
index f70091d..3cade57 100644
--- a/std_json.go
+++ b/std_json.go
@@ -112,7 +112,10 @@ func tryStdMarshal(v reflect.Value, marshalFunc func(v reflect.Value) JSONObject
 			if err != nil {
 				panic(fmt.Sprintf("MarshalJSON of %q error: %v", v.String(), err))
 			}
-			jo, err := Parse(data)
+			jo, offset, err := ParseStream(data, 0)
+			if err == nil && skipEmpty(data, offset) < len(data) {
+				err = NewJSONError(data, offset, "Unexpected char after the value")
+			}
 			if err != nil {
 				panic(fmt.Sprintf("Parse data %q to json of %q error: %v", data, v.String(), err))
 			}
-- 
2.43.0


From 6cd49d3a7458736b403476d11976869a3bcd7a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 26/42] fix: report an error for input nested too deep instead
 of exhausting the stack

---
 jsonutils.go     |  8 ++++++++
 parse_session.go | 18 ++++++++++++++++++
 querystring.go   |  3 +++
 3 files changed, 29 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 5bc39da..ca42444 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -577,6 +577,10 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 }
 
 func (this *JSONDict) parse(s *sJsonParseSession, str []byte, offset int) (int, error) {
+	if e := s.enter(str, offset); e != nil {
+		return offset, e
+	}
+	defer s.leave()
 	smap, i, nodeId, e := s.parseDict(str, offset)
 	if e == nil {
 		this.nodeId = nodeId
@@ -650,6 +654,10 @@ func (this *JSONDict) prettyString(level int) string {
 }
 
 func (this *JSONArray) parse(s *sJsonParseSession, str []byte, offset int) (int, error) {
+	if e := s.enter(str, offset); e != nil {
+		return offset, e
+	}
+	defer s.leave()
 	val, i, e := s.parseArray(str, offset)
 	if e == nil {
 		this.data = val
diff --git a/parse_session.go b/parse_session.go
index c6c4e34..f14cba0 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -23,8 +23,14 @@ type sNodeReferer struct {
 	pointers []*sJSONPointer
 }
 
+// maxNestingDepth is the deepest nesting of dictionaries and arrays that is parsed,
+// deeper input would exhaust the stack
+const maxNestingDepth = 10000
+
 type sJsonParseSession struct {
 	objectMap map[int]*sNodeReferer
+
+	depth int
 }
 
 func newJsonParseSession() *sJsonParseSession {
@@ -33,6 +39,18 @@ func newJsonParseSession() *sJsonParseSession {
 	}
 }
 
+func (s *sJsonParseSession) enter(str []byte, offset int) error {
+	if s.depth >= maxNestingDepth {
+		return NewJSONError(str, offset, "Exceeds max nesting depth")
+	}
+	s.depth++
+	return nil
+}
+
+func (s *sJsonParseSession) leave() {
+	s.depth--
+}
+
 func (s *sJsonParseSession) saveReferer(nodeId int, ptr *sJSONPointer) {
 	if nr, ok := s.objectMap[nodeId]; ok {
 		nr.pointers = append(nr.pointers, ptr)
diff --git a/querystring.go b/querystring.go
index faded21..5638b6c 100644
--- a/querystring.go
+++ b/querystring.go
@@ -95,6 +95,9 @@ func (this *JSONDict) parseQueryString(str string) error {
 	segmentKeys := strings2stringSegments(keys)
 	sort.Sort(segmentKeys)
 	for _, segs := range segmentKeys {
+		if len(segs) > maxNestingDepth {
+			return errors.Wrapf(ErrOutOfKeyRange, "key of %d segments", len(segs))
+		}
 		_, err := addQueryStringSeg(this, segs, m[segments2string(segs)])
 		if err != nil {
 			return errors.Wrap(err, "addQueryStringSeg")
-- 
2.43.0


From d30cdc11b2d801ee1efc0e6d747bda18327ec4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 27/42] fix: reject the reserved node id key in query strings,
 the document could not be read back

---
 querystring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/querystring.go b/querystring.go
index 5638b6c..409a40c 100644
--- a/querystring.go
+++ b/querystring.go
@@ -98,6 +98,11 @@ func (this *JSONDict) parseQueryString(str string) error {
 		if len(segs) > maxNestingDepth {
 			return errors.Wrapf(ErrOutOfKeyRange, "key of %d segments", len(segs))
 		}
+		for i := range segs {
+			if segs[i].String() == jsonPointerKey {
+				return errors.Wrapf(ErrOutOfKeyRange, "reserved key %s", jsonPointerKey)
+			}
+		}
 		_, err := addQueryStringSeg(this, segs, m[segments2string(segs)])
 		if err != nil {
 			return errors.Wrap(err, "addQueryStringSeg")
-- 
2.43.0


From 49819138a02313f99c89f9cd39f85b6f6b32b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 28/42] fix: encode a held null document as null instead of {}

---
 marshal.go | 2 +-
 reflect.go | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 940c320..1579039 100644
--- a/marshal.go
+++ b/marshal.go
@@ -299,7 +299,7 @@ func (s *sJsonMarshalSession) marshalValueWithObjectMap(objValue reflect.Value,
 
 func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
 	switch objValue.Type() {
-	case JSONDictPtrType, JSONArrayPtrType, JSONBoolPtrType, JSONIntPtrType, JSONFloatPtrType, JSONStringPtrType, JSONObjectType:
+	case JSONDictPtrType, JSONArrayPtrType, JSONBoolPtrType, JSONIntPtrType, JSONFloatPtrType, JSONStringPtrType, JSONValuePtrType, JSONObjectType:
 		if objValue.IsNil() {
 			if omitEmpty {
 				return nil
diff --git a/reflect.go b/reflect.go
index db73dd7..dc5adfa 100644
--- a/reflect.go
+++ b/reflect.go
@@ -34,6 +34,7 @@ var (
 	JSONIntPtrType    reflect.Type
 	JSONFloatPtrType  reflect.Type
 	JSONBoolPtrType   reflect.Type
+	JSONValuePtrType  reflect.Type
 	JSONObjectType    reflect.Type
 )
 
@@ -50,6 +51,7 @@ func init() {
 	JSONIntPtrType = reflect.TypeOf(&JSONInt{})
 	JSONFloatPtrType = reflect.TypeOf(&JSONFloat{})
 	JSONBoolPtrType = reflect.TypeOf(&JSONBool{})
+	JSONValuePtrType = reflect.TypeOf(&JSONValue{})
 	JSONObjectType = reflect.TypeOf((*JSONObject)(nil)).Elem()
 
 	gotypes.RegisterSerializable(JSONObjectType, func() gotypes.ISerializable {
-- 
2.43.0


From e1dad143cc32f954f91412826d8beea3ed7d2c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 29/42] fix: fill lists of a query string in the order of their
 indices when elements differ in depth

---
 stringsegment.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stringsegment.go b/stringsegment.go
index 78edf2b..e998914 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -94,12 +94,12 @@ type sStringSegments [][]sTextNumber
 func (ss sStringSegments) Len() int      { return len(ss) }
 func (ss sStringSegments) Swap(i, j int) { ss[i], ss[j] = ss[j], ss[i] }
 func (ss sStringSegments) Less(i, j int) bool {
-	if len(ss[i]) < len(ss[j]) {
-		return true
-	} else if len(ss[i]) > len(ss[j]) {
-		return false
-	}
+	// segment by segment, a prefix first: the elements of a list must come in the
+	// order of their numbers, however deep they are
 	for ii := range ss[i] {
+		if ii >= len(ss[j]) {
+			return false
+		}
 		ret := ss[i][ii].compare(ss[j][ii])
 		if ret < 0 {
 			return true
@@ -107,7 +107,7 @@ func (ss sStringSegments) Less(i, j int) bool {
 			return false
 		}
 	}
-	return false
+	return len(ss[i]) < len(ss[j])
 }
 
 func strings2stringSegments(strs []string) sStringSegments {
-- 
2.43.0


From 094db37e653b4c3bd44d1e52e849183a2ef841d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 30/42] fix: keep query keys such as 01 as they are instead of
 losing their values

---
 stringsegment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stringsegment.go b/stringsegment.go
index e998914..4b1b89c 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -65,7 +65,8 @@ func (tn sTextNumber) String() string {
 
 func string2TextNumber(str string) sTextNumber {
 	num, err := strconv.ParseInt(str, 10, 64)
-	if err != nil {
+	if err != nil || strconv.FormatInt(num, 10) != str {
+		// not a number, or one like 01 that would be another key when written back
 		return sTextNumber{text: str, isNumber: false}
 	} else {
 		return sTextNumber{number: num, isNumber: true}
-- 
2.43.0


From ac2f4b95dcf48818c3d8c91208154fafe7d4a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 31/42] fix: decode lists and dictionaries behind pointers to
 pointers, as plain values are

---
 unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 08ea224..0bdcbbf 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -432,7 +432,7 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		return nil
 	case reflect.Ptr:
 		kind := val.Type().Elem().Kind()
-		if kind == reflect.Array || kind == reflect.Slice {
+		if kind == reflect.Array || kind == reflect.Slice || kind == reflect.Ptr {
 			if val.IsNil() {
 				val.Set(reflect.New(val.Type().Elem()))
 			}
@@ -530,7 +530,7 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	case reflect.Ptr:
 		kind := val.Type().Elem().Kind()
-		if kind == reflect.Struct || kind == reflect.Map {
+		if kind == reflect.Struct || kind == reflect.Map || kind == reflect.Ptr {
 			if val.IsNil() {
 				newVal := reflect.New(val.Type().Elem())
 				val.Set(newVal)
-- 
2.43.0


From bc2a9ccc9f5f39a54afe87764c31d9ddf1f15980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 32/42] fix: encode maps whose keys have the same text in one
 order, not in the order of the map

---
 marshal.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/marshal.go b/marshal.go
index 1579039..da5ff1c 100644
--- a/marshal.go
+++ b/marshal.go
@@ -64,9 +64,16 @@ func (s *sJsonMarshalSession) marshalSlice(val reflect.Value, info *reflectutils
 
 type tMapKeys []reflect.Value
 
-func (a tMapKeys) Len() int           { return len(a) }
-func (a tMapKeys) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
-func (a tMapKeys) Less(i, j int) bool { return mapKeyText(a[i]) < mapKeyText(a[j]) }
+func (a tMapKeys) Len() int      { return len(a) }
+func (a tMapKeys) Swap(i, j int) { a[i], a[j] = a[j], a[i] }
+func (a tMapKeys) Less(i, j int) bool {
+	ti, tj := mapKeyText(a[i]), mapKeyText(a[j])
+	if ti != tj {
+		return ti < tj
+	}
+	// different keys with the same text have an order, too
+	return mapKeySyntax(a[i]) < mapKeySyntax(a[j])
+}
 
 func mapKeyText(key reflect.Value) string {
 	if key.Kind() == reflect.String {
@@ -75,6 +82,13 @@ func mapKeyText(key reflect.Value) string {
 	return fmt.Sprintf("%v", key)
 }
 
+func mapKeySyntax(key reflect.Value) string {
+	if key.Kind() == reflect.Interface && !key.IsNil() {
+		key = key.Elem()
+	}
+	return fmt.Sprintf("%s %#v", key.Type(), key)
+}
+
 func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
 	if val.IsNil() {
 		if !omitEmpty {
-- 
2.43.0


From da23ed82d6d1811a0dc9383a7e7a321e035b0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:16 +0000
Subject: [PATCH 33/42] fix: keep a tri-state one of its values when it is read
 from a number, boolean or text

---
 unmarshal.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 0bdcbbf..8870a54 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -118,6 +118,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
@@ -179,6 +180,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		} else {
 			val.Set(tristate.TriStateFalseValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -263,6 +265,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -354,6 +357,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			val.Set(tristate.TriStateNoneValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -423,7 +427,8 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONDictType, JSONIntType, JSONStringType, JSONBoolType, JSONFloatType,
-		JSONDictPtrType, JSONIntPtrType, JSONStringPtrType, JSONBoolPtrType, JSONFloatPtrType:
+		JSONDictPtrType, JSONIntPtrType, JSONStringPtrType, JSONBoolPtrType, JSONFloatPtrType,
+		tristate.TriStateType:
 		return ErrTypeMismatch //fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	}
 	switch val.Kind() {
@@ -490,7 +495,8 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONArrayType, JSONIntType, JSONBoolType, JSONFloatType, JSONStringType,
-		JSONArrayPtrType, JSONIntPtrType, JSONBoolPtrType, JSONFloatPtrType, JSONStringPtrType:
+		JSONArrayPtrType, JSONIntPtrType, JSONBoolPtrType, JSONFloatPtrType, JSONStringPtrType,
+		tristate.TriStateType:
 		return ErrTypeMismatch // fmt.Errorf("JSONDict type mismatch %s", val.Type())
 	}
 	switch val.Kind() {
-- 
2.43.0


From 265688171e500e2d9bfb7c8a7298f8c3155a6d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:31 +0000
Subject: [PATCH 34/42] fix: report numbers that do not fit the value they are
 read into instead of storing others

---
 errors.go    |  1 +
 unmarshal.go | 69 ++++++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/errors.go b/errors.go
index c6851cc..0b1757c 100644
--- a/errors.go
+++ b/errors.go
@@ -27,6 +27,7 @@ const (
 	ErrInvalidRune = errors.Error("invalid 4 byte rune")
 
 	ErrTypeMismatch         = errors.Error("unmarshal type mismatch")
+	ErrOutOfRange           = errors.Error("unmarshal value out of range")
 	ErrArrayLengthMismatch  = errors.Error("unmarshal array length mismatch")
 	ErrInterfaceUnsupported = errors.Error("do not known how to deserialize json into this interface type")
 	ErrMapKeyMustString     = errors.Error("map key must be string")
diff --git a/unmarshal.go b/unmarshal.go
index 8870a54..ce3ccba 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -23,6 +23,7 @@ Fill the value of JSONObject into any object
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -80,6 +81,38 @@ func setInterfaceValue(val reflect.Value, data interface{}) error {
 	return nil
 }
 
+func setIntValue(val reflect.Value, data int64) error {
+	if val.OverflowInt(data) {
+		return errors.Wrapf(ErrOutOfRange, "%d vs. %s", data, val.Type())
+	}
+	val.SetInt(data)
+	return nil
+}
+
+func setUintValue(val reflect.Value, data uint64) error {
+	if val.OverflowUint(data) {
+		return errors.Wrapf(ErrOutOfRange, "%d vs. %s", data, val.Type())
+	}
+	val.SetUint(data)
+	return nil
+}
+
+func setFloatValue(val reflect.Value, data float64) error {
+	// data may be slightly above the greatest float32 that it is the text of
+	if val.Kind() == reflect.Float32 && math.IsInf(float64(float32(data)), 0) && !math.IsInf(data, 0) {
+		return errors.Wrapf(ErrOutOfRange, "%f vs. %s", data, val.Type())
+	}
+	val.SetFloat(data)
+	return nil
+}
+
+func floatToInt64(data float64, typ reflect.Type) (int64, error) {
+	if !(data >= -(1<<63) && data < 1<<63) {
+		return 0, errors.Wrapf(ErrOutOfRange, "%f vs. %s", data, typ)
+	}
+	return int64(data), nil
+}
+
 func (this *JSONValue) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	if val.CanSet() {
 		zeroVal := reflect.New(val.Type()).Elem()
@@ -123,10 +156,11 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
 		reflect.Int32, reflect.Int64:
-		val.SetInt(this.data)
+		return setIntValue(val, this.data)
 	case reflect.Uint, reflect.Uint8, reflect.Uint16,
 		reflect.Uint32, reflect.Uint64:
-		val.SetUint(uint64(this.data))
+		// a uint64 above the range of int64 is kept as a negative JSONInt
+		return setUintValue(val, uint64(this.data))
 	case reflect.Float32, reflect.Float64:
 		val.SetFloat(float64(this.data))
 	case reflect.Bool:
@@ -246,11 +280,19 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		return nil
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
-		json.data = int64(this.data)
+		data, err := floatToInt64(this.data, val.Type())
+		if err != nil {
+			return err
+		}
+		json.data = data
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONIntPtrType:
-		val.Set(reflect.ValueOf(NewInt(int64(this.data))))
+		data, err := floatToInt64(this.data, val.Type())
+		if err != nil {
+			return err
+		}
+		val.Set(reflect.ValueOf(NewInt(data)))
 		return nil
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
@@ -269,11 +311,18 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-		val.SetInt(int64(this.data))
+		data, err := floatToInt64(this.data, val.Type())
+		if err != nil {
+			return err
+		}
+		return setIntValue(val, data)
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		val.SetUint(uint64(this.data))
+		if !(this.data > -1 && this.data < 1<<64) {
+			return errors.Wrapf(ErrOutOfRange, "%f vs. %s", this.data, val.Type())
+		}
+		return setUintValue(val, uint64(this.data))
 	case reflect.Float32, reflect.Float64:
-		val.SetFloat(this.data)
+		return setFloatValue(val, this.data)
 	case reflect.Bool:
 		if this.data == 0 {
 			val.SetBool(false)
@@ -366,7 +415,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 			if err != nil {
 				return err
 			}
-			val.SetInt(intVal)
+			return setIntValue(val, intVal)
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		if len(this.data) > 0 {
@@ -374,7 +423,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 			if err != nil {
 				return err
 			}
-			val.SetUint(intVal)
+			return setUintValue(val, intVal)
 		}
 	case reflect.Float32, reflect.Float64:
 		if len(this.data) > 0 {
@@ -382,7 +431,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 			if err != nil {
 				return err
 			}
-			val.SetFloat(floatVal)
+			return setFloatValue(val, floatVal)
 		}
 	case reflect.Bool:
 		val.SetBool(utils.ToBool(this.data))
-- 
2.43.0


From 8ab79085cc22a46056cd8f2f40a03b0876dd86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:02 +0000
Subject: [PATCH 35/42] fix: read numbers and booleans that are documents by
 themselves instead of zeroing the target

---
 unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index ce3ccba..0483734 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -55,6 +55,18 @@ func (this *JSONString) Unmarshal(obj interface{}, keys ...string) error {
 	return jsonUnmarshal(this, obj, keys)
 }
 
+func (this *JSONInt) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONFloat) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONBool) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
 func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	if len(keys) > 0 {
 		var err error = nil
-- 
2.43.0


From 242ea79ad5aee5c8374b92924f3bfd1170c0bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:03 +0000
Subject: [PATCH 36/42] fix: hold the document instead of panicking when an
 interface is registered without a type to read

---
 unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 0483734..4d93ef4 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -575,8 +575,8 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 				return err
 			}
 			if objPtr == nil {
-				val.Set(reflect.ValueOf(this.data)) // ???
-				return nil
+				// no type to read it as: hold the document itself
+				return setInterfaceValue(val, this)
 			}
 			err = this.unmarshalValue(s, reflect.ValueOf(objPtr))
 			if err != nil {
-- 
2.43.0


From c5a231c26c80ee09e472e8f40c6c124615dbe50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:05 +0000
Subject: [PATCH 37/42] fix: read into time values every time that GetTime
 reads, such as ones written with a short fraction

---
 unmarshal.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 4d93ef4..8522ef4 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -35,7 +35,6 @@ import (
 	"yunion.io/x/pkg/sortedmap"
 	"yunion.io/x/pkg/tristate"
 	"yunion.io/x/pkg/util/reflectutils"
-	"yunion.io/x/pkg/util/timeutils"
 	"yunion.io/x/pkg/utils"
 )
 
@@ -377,9 +376,9 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		var tm time.Time
 		var err error
 		if len(this.data) > 0 {
-			tm, err = timeutils.ParseTimeStr(this.data)
+			tm, err = this.GetTime()
 			if err != nil {
-				log.Warningf("timeutils.ParseTimeStr %s %s", this.data, err)
+				log.Warningf("GetTime %s %s", this.data, err)
 			}
 		} else {
 			tm = time.Time{}
-- 
2.43.0


From 10b619f8ce8e688c82079820d05bbd0f0d2eb8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:26 +0000
Subject: [PATCH 38/42] fix: convert documents with references to enclosing
 nodes instead of exhausting the stack

---
 interface.go   | 44 +++++++++++++++++++++++++++++++++-----------
 jsonpointer.go |  2 +-
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/interface.go b/interface.go
index 7d2b7ed..7e64630 100644
--- a/interface.go
+++ b/interface.go
@@ -39,20 +39,42 @@ func (self *JSONString) Interface() interface{} {
 }
 
 func (self *JSONArray) Interface() interface{} {
-	ret := make([]interface{}, len(self.data))
-	for i := 0; i < len(self.data); i += 1 {
-		ret[i] = self.data[i].Interface()
-	}
-	return ret
+	return make(sInterfaceSession).convert(self)
 }
 
 func (self *JSONDict) Interface() interface{} {
-	mapping := make(map[string]interface{})
+	return make(sInterfaceSession).convert(self)
+}
 
-	for iter := sortedmap.NewIterator(self.data); iter.HasMore(); iter.Next() {
-		k, v := iter.Get()
-		mapping[k] = v.(JSONObject).Interface()
-	}
+// sInterfaceSession holds the maps of the dictionaries being converted, which
+// references in their members refer to
+type sInterfaceSession map[JSONObject]map[string]interface{}
 
-	return mapping
+func (s sInterfaceSession) convert(obj JSONObject) interface{} {
+	switch v := obj.(type) {
+	case *JSONArray:
+		ret := make([]interface{}, len(v.data))
+		for i := 0; i < len(v.data); i += 1 {
+			ret[i] = s.convert(v.data[i])
+		}
+		return ret
+	case *JSONDict:
+		if mapping, ok := s[v]; ok {
+			return mapping
+		}
+		mapping := make(map[string]interface{})
+		s[v] = mapping
+		defer delete(s, v)
+
+		for iter := sortedmap.NewIterator(v.data); iter.HasMore(); iter.Next() {
+			k, o := iter.Get()
+			mapping[k] = s.convert(o.(JSONObject))
+		}
+
+		return mapping
+	case *sJSONPointer:
+		return s.convert(v.getNode())
+	default:
+		return obj.Interface()
+	}
 }
diff --git a/jsonpointer.go b/jsonpointer.go
index 527cc68..5101230 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -175,7 +175,7 @@ func (ptr *sJSONPointer) Equals(obj JSONObject) bool {
 }
 
 func (ptr *sJSONPointer) Interface() interface{} {
-	return ptr.getNode().Interface()
+	return make(sInterfaceSession).convert(ptr)
 }
 
 func (ptr *sJSONPointer) isCompond() bool {
-- 
2.43.0


From 169e28e30a1f459131a3af74d266cacdc97a2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:26 +0000
Subject: [PATCH 39/42] fix: compare references by what they refer to, so that
 a document equals itself and what is read from its text

---
 jsonpointer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpointer.go b/jsonpointer.go
index 5101230..aea6197 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -171,7 +171,11 @@ func (ptr *sJSONPointer) Unmarshal(obj interface{}, keys ...string) error {
 }
 
 func (ptr *sJSONPointer) Equals(obj JSONObject) bool {
-	return ptr.getNode().Equals(obj)
+	ptr2, ok := obj.(*sJSONPointer)
+	if !ok {
+		return false
+	}
+	return ptr.nodeId == ptr2.nodeId
 }
 
 func (ptr *sJSONPointer) Interface() interface{} {
-- 
2.43.0


From 31fda694116ee8c7a146feafe7524982c3e8d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:01 +0000
Subject: [PATCH 40/42] fix: keep the node id in shallow copies, whose members
 may refer to it

---
 clone.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clone.go b/clone.go
index 4644e37..cf93226 100644
--- a/clone.go
+++ b/clone.go
@@ -34,6 +34,7 @@ func (this *JSONDict) CopyExcludes(excludes ...string) *JSONDict {
 			dict.Set(k, v.(JSONObject))
 		}
 	}
+	dict.nodeId = this.nodeId
 	return dict
 }
 
@@ -46,6 +47,7 @@ func (this *JSONDict) CopyIncludes(includes ...string) *JSONDict {
 			dict.Set(k, v.(JSONObject))
 		}
 	}
+	dict.nodeId = this.nodeId
 	return dict
 }
 
-- 
2.43.0


From 1f1af31fef1c6cb36e70c6b27b587307c40a974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:53 +0000
Subject: [PATCH 41/42] fix: decode floats into texts without losing digits

---
 unmarshal.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 8522ef4..0549599 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -283,11 +283,11 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		return nil
 	case JSONStringType:
 		json := val.Interface().(JSONString)
-		json.data = fmt.Sprintf("%f", this.data)
+		json.data = this.String()
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
-		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%f", this.data))))
+		val.Set(reflect.ValueOf(NewString(this.String())))
 		return nil
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
@@ -341,7 +341,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 			val.SetBool(true)
 		}
 	case reflect.String:
-		val.SetString(fmt.Sprintf("%f", this.data))
+		val.SetString(this.String())
 	case reflect.Ptr:
 		if val.IsNil() {
 			val.Set(reflect.New(val.Type().Elem()))
-- 
2.43.0


From 367c54071b1e37c27a12651cd49668ab46d077bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:22 +0000
Subject: [PATCH 42/42] fix: write the keys of a map with text keys as they
 are, even if their type has a String method

---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index da5ff1c..4cbe46f 100644
--- a/marshal.go
+++ b/marshal.go
@@ -108,7 +108,7 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 		key := keys[i]
 		val := s.marshalValue(val.MapIndex(key), nil, omitEmpty)
 		if val != nil {
-			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%v", key), val: val})
+			objPairs = append(objPairs, JSONPair{key: mapKeyText(key), val: val})
 		}
 	}
 	dict := NewDict(objPairs...)
-- 
2.43.0

