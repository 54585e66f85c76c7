From 7c636bfa2a75bcda4091efcf16f015293114019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:31 +0000
Subject: [PATCH 01/42] fix: Value2File reports failed BOM writes and failed
 closes

---
 jsonparse.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 3bd1cc5..2d68246 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -849,11 +849,17 @@ func NewValueFromJsonFile(fileName string,usecache bool)(*DxValue,error)  {
 	return NewValueFromJson(databytes,usecache,false)
 }
 
-func Value2File(v *DxValue, fileName string,BOMFile,format bool)error{
+func Value2File(v *DxValue, fileName string,BOMFile,format bool)(saveErr error){
 	if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC | os.O_WRONLY,0666);err == nil{
-		defer file.Close()
+		defer func() {
+			if err := file.Close();saveErr == nil{
+				saveErr = err
+			}
+		}()
 		if BOMFile{
-			file.Write([]byte{0xEF,0xBB,0xBF})
+			if _,err := file.Write([]byte{0xEF,0xBB,0xBF});err != nil{
+				return err
+			}
 		}
 		var dst []byte
 		if format{
-- 
2.43.0


From 062d8ceab21231dc2b88ff92cef4fa0ea32f0e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:35 +0000
Subject: [PATCH 02/42] fix: SaveBinaryToFile opens the file for writing and
 reports failed closes

---
 bin_value.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index 2b49c58..3f8f7b2 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -74,10 +74,14 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 	}
 }
 
-func (v *DxValue)SaveBinaryToFile(fileName string)error  {
+func (v *DxValue)SaveBinaryToFile(fileName string)(saveErr error)  {
 	if  v.DataType == VT_Binary || v.DataType == VT_ExBinary{
-		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC,0644);err == nil{
-			defer file.Close()
+		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC | os.O_WRONLY,0644);err == nil{
+			defer func() {
+				if err := file.Close();saveErr == nil{
+					saveErr = err
+				}
+			}()
 			if v.DataType == VT_Binary{
 				_,err := file.Write(v.fbinary)
 				return err
-- 
2.43.0


From f158e6fed3f4890987a1a9b0e4c7a1a82ad15379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:52 +0000
Subject: [PATCH 03/42] fix: Reset and Clear drop the old number, date and
 extension type

---
 dxvalue.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 75bc829..c180b28 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -211,6 +211,8 @@ func (v *DxValue)Clear()  {
 		v.farr = nil
 		v.fobject.strkvs = nil
 	}
+	v.ExtType = 0
+	v.simpleV = [8]byte{}
 	v.fbinary = nil
 	v.fstrvalue = ""
 }
@@ -348,6 +350,7 @@ func (v *DxValue)Reset(dt ValueType)  {
 		v.farr = nil
 		v.fobject.strkvs = nil
 	}
+	v.simpleV = [8]byte{}
 	v.fbinary = nil
 	v.fstrvalue = ""
 }
-- 
2.43.0


From 178cb71462b24fe437db665142de0ccf1f4a60b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:57 +0000
Subject: [PATCH 04/42] fix: the shared constants cannot be changed through any
 setter, load, merge or release

---
 cache.go   |  2 +-
 dxvalue.go | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index bc456b3..0b8a29d 100644
--- a/cache.go
+++ b/cache.go
@@ -62,7 +62,7 @@ func (c *ValueCache)Reset(toRoot bool)  {
 
 //释放Value回收ValueCache
 func FreeValue(v *DxValue)  {
-	if v == nil{
+	if v == nil || v.ReadOnly(){
 		return
 	}
 	v.Clear()
diff --git a/dxvalue.go b/dxvalue.go
index c180b28..489550c 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -2,6 +2,7 @@ package dxsvalue
 
 import (
 	"bytes"
+	"errors"
 	"github.com/suiyunonghen/DxCommonLib"
 	"math"
 	"reflect"
@@ -31,6 +32,7 @@ const(
 )
 var(
 	IgnoreCase = false		//是否忽略大小写
+	ErrReadOnly = errors.New("the value is a shared constant and can not be changed")
 )
 
 
@@ -190,6 +192,9 @@ func (v *DxValue)ValueCache()*ValueCache  {
 }
 
 func (v *DxValue)Clear()  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.ownercache != nil{
 		v.ownercache.Reset(false) //根不回收
 	}
@@ -259,6 +264,9 @@ func NewCacheValue(tp ValueType)*DxValue  {
 }
 
 func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -268,6 +276,9 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	b,_ = skipWB(b)
 	if len(b) == 0{
@@ -278,6 +289,9 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	spacount := 0
 	for i := 0;i<len(b);i++{
@@ -309,6 +323,9 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 }
 
 func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -432,6 +449,9 @@ func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte
 				}else{
 					//合并成数组
 					oldobj := v.fobject.strkvs[idx].V.clone(nil)
+					if v.fobject.strkvs[idx].V.ReadOnly(){
+						v.fobject.strkvs[idx].V = NewArray(false)
+					}
 					v.fobject.strkvs[idx].V.Reset(VT_Array)
 					v.fobject.strkvs[idx].V.SetIndexValue(0,oldobj)
 					v.fobject.strkvs[idx].V.SetIndexValue(1,value.fobject.strkvs[i].V.clone(nil))
@@ -581,6 +601,9 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly(){
+		return
+	}
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -601,6 +624,9 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 }
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly(){
+		return
+	}
 	v.Reset(fromv.DataType)
 	switch fromv.DataType {
 	case VT_Object:
@@ -701,6 +727,9 @@ func (v *DxValue)ForcePath(vt ValueType,paths ...string)*DxValue  {
 }
 
 func (v *DxValue)SetInt(value int64)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Int{
 		v.Reset(VT_Int)
 	}
@@ -815,6 +844,9 @@ func (v *DxValue)Items(idx int)(string,*DxValue)  {
 }
 
 func (v *DxValue)SetString(value string)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_String{
 		v.Reset(VT_String)
 	}
@@ -998,6 +1030,9 @@ func (v *DxValue)SetDouble(value float64)  {
 }
 
 func (v *DxValue)SetTime(value time.Time)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1005,6 +1040,9 @@ func (v *DxValue)SetTime(value time.Time)  {
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1127,6 +1165,9 @@ func (v *DxValue)GoTimeByPath(DefaultValue time.Time, paths ...string)time.Time
 }
 
 func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		return c.getValue(tp) //固定值不能有子节点
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1160,6 +1201,9 @@ func (v *DxValue)SetKey(Name string,tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1181,6 +1225,9 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 }
 
 func (v *DxValue)SetIndexValue(idx int,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1218,6 +1265,9 @@ func (v *DxValue)Append(tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		return c.getValue(tp) //固定值不能有子节点
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1244,6 +1294,9 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)InsertValue(idx int,tp ValueType)*DxValue  {
+	if v.ReadOnly(){
+		return NewValue(tp) //固定值不能有子节点
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
-- 
2.43.0


From 487f5b3782b860f15acddd1a42ea122cd360f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:29 +0000
Subject: [PATCH 05/42] fix: a YAML document whose last line has at most one
 byte no longer parses forever

---
 yamlparse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index d909717..6e7e9c5 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -498,7 +498,7 @@ func (parser *yamlParser)parse()error  {
 		}
 		if curLineEnd - istart < 2{
 			istart = curLineEnd + 1
-			if istart == datalen{
+			if istart >= datalen{
 				break
 			}
 			continue
-- 
2.43.0


From 313936453eab925535455e74699139fa1cce1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:34 +0000
Subject: [PATCH 06/42] fix: a YAML line of blanks no longer panics

---
 yamlparse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index 6e7e9c5..8ae3c8f 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -175,7 +175,7 @@ var(
 )
 func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 	dataLine := lineData[spaceCount:]
-	if dataLine[0] == '#'{
+	if len(dataLine) == 0 || dataLine[0] == '#'{
 		//注释，不做处理
 		return nil
 	}
-- 
2.43.0


From 55e75b8b2752cbf69c6749bea0e8a2102f4f66c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:39 +0000
Subject: [PATCH 07/42] fix: a recycled YAML parser starts in the same state as
 a new one

---
 yamlparse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index 8ae3c8f..e32e2c0 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -53,6 +53,8 @@ func freeyamlParser(parser *yamlParser)  {
 func (parser *yamlParser)reset(data []byte)  {
 	parser.parseData = data
 	parser.root = nil
+	parser.ifFirstObjEle = false
+	parser.lastOpifMerge = false
 	parser.fparentCache = nil
 	for i := 0;i<len(parser.fParsingValues);i++{
 		parser.fParsingValues[i].v = nil
-- 
2.43.0


From 12732c8c2226735defcc4085b3af7c7e4a088c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:44 +0000
Subject: [PATCH 08/42] fix: a YAML alias inside the value it names no longer
 hangs or panics

---
 yamlparse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index e32e2c0..e3766ec 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -80,6 +80,12 @@ func (parser *yamlParser)setCachedUseage(cacheName string,cacheValue *DxValue)
 func (parser *yamlParser)getUseage(cacheName string)*DxValue  {
 	for i := 0;i<len(parser.useageValues);i++{
 		if parser.useageValues[i].K == cacheName{
+			//还没有解析完的值，不能在自己的内部被引用
+			for j := 0;j<len(parser.fParsingValues);j++{
+				if parser.fParsingValues[j].v == parser.useageValues[i].V{
+					return nil
+				}
+			}
 			return parser.useageValues[i].V
 		}
 	}
-- 
2.43.0


From 77c7b265687b9a773f22631f4d8591d8dae45ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:49 +0000
Subject: [PATCH 09/42] fix: JSON keys with escape sequences are accepted

---
 jsonparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonparse.go b/jsonparse.go
index 2d68246..2663912 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -235,6 +235,7 @@ func parseJsonKey(b []byte,sharebinary bool) (key string, tail []byte, err error
 					jpe.Type = JET_NoKeyEnd
 				}
 			}
+			return
 		}
 	}
 	return "", nil, &ErrorParseJson{
-- 
2.43.0


From 830a3902c00dd403b7bd10333ca5bd846ed2a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:54 +0000
Subject: [PATCH 10/42] fix: printing a JSON error for an unterminated key or
 string no longer panics

---
 jsonparse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonparse.go b/jsonparse.go
index 2663912..ad6c574 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -241,6 +241,7 @@ func parseJsonKey(b []byte,sharebinary bool) (key string, tail []byte, err error
 	return "", nil, &ErrorParseJson{
 		Type:         JET_NoKeyStart,
 		InvalidIndex: l,
+		parseB:       b,
 	}
 }
 
@@ -250,6 +251,7 @@ func parseJsonString(b []byte,sharebinary bool) (value string, tail []byte, err
 		return "", b, &ErrorParseJson{
 			Type:         JET_NoStrEnd,
 			InvalidIndex: 0,
+			parseB:       b,
 		}
 	}
 	if n == 0 || b[n-1] != '\\' {//不是转义的"
@@ -278,6 +280,7 @@ func parseJsonString(b []byte,sharebinary bool) (value string, tail []byte, err
 			return string(ss), ss, &ErrorParseJson{
 				Type:         JET_NoStrEnd,
 				InvalidIndex: 0,
+				parseB:       ss,
 			}
 		}
 		if n == 0 || b[n-1] != '\\' {
-- 
2.43.0


From bff2a05d7bf5b571f8aaba756f0c2a4b60b4c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:26 +0000
Subject: [PATCH 11/42] fix: JSON accepts nan and no longer takes other words
 starting with n for it

---
 jsonparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index ad6c574..f7503ca 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -481,7 +481,7 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				return valueNAN, b[3:], nil
 			}
 			return nil, b,errors.New("无效的Json格式")
@@ -538,7 +538,7 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				v.Reset(VT_NAN)
 				return  b[3:], nil
 			}
-- 
2.43.0


From 36c3becbc3da66d83ddc1f611e50e48e0b47d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:31 +0000
Subject: [PATCH 12/42] fix: a JSON number at the end of the input is decoded,
 and loaded as the same type

---
 jsonparse.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index f7503ca..620a621 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -552,11 +552,15 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 
 func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 	isfloat := false
-	for i := 0; i < len(b); i++ {
-		ch := b[i]
-		isfloat = ch == '.'
-		if (ch >= '0' && ch <= '9') || isfloat || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
-			continue
+	for i := 0; i <= len(b); i++ {
+		if i < len(b){
+			ch := b[i]
+			if !isfloat{
+				isfloat = ch == '.'
+			}
+			if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+				continue
+			}
 		}
 		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
 			if len(b[i:]) >= 3 {
@@ -588,13 +592,15 @@ func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 
 func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error) {
 	isfloat := false
-	for i := 0; i < len(b); i++ {
-		ch := b[i]
-		if !isfloat{
-			isfloat = ch == '.'
-		}
-		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
-			continue
+	for i := 0; i <= len(b); i++ {
+		if i < len(b){
+			ch := b[i]
+			if !isfloat{
+				isfloat = ch == '.'
+			}
+			if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+				continue
+			}
 		}
 		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
 			if len(b[i:]) >= 3 {
-- 
2.43.0


From c0874b584dd8b420cac4d68828b22f008cfbea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:36 +0000
Subject: [PATCH 13/42] fix: LoadFromJson gives the value the type of the
 document and rejects trailing data

---
 dxvalue.go   | 12 +++++++++++-
 jsonparse.go |  2 ++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 489550c..f487512 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -284,7 +284,17 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
-	_,err := parseJson2Value(b,v,sharebinary)
+	tail,err := parseJson2Value(b,v,sharebinary)
+	if err == nil{
+		b,skiplen := skipWB(tail)
+		if len(b) > 0{
+			err = &ErrorParseJson{
+				Type:         JET_Invalidate,
+				InvalidIndex: skiplen,
+				parseB:       tail,
+			}
+		}
+	}
 	return err
 }
 
diff --git a/jsonparse.go b/jsonparse.go
index 620a621..7471862 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -500,9 +500,11 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 		}
 	}
 	if b[0] == '{'{
+		v.Reset(VT_Object)
 		return parseJsonObj2V(b[1:],v,sharebinary)
 	}
 	if b[0] == '[' {
+		v.Reset(VT_Array)
 		return parseJsonArray2V(b[1:],v,sharebinary)
 	}
 	if b[0] == '"' {
-- 
2.43.0


From b6af4531a2470fbe0ce1750f1ef628a321755883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:41 +0000
Subject: [PATCH 14/42] fix: a failed load leaves no partly decoded content
 behind

---
 dxvalue.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index f487512..df911bb 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -272,6 +272,15 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 		return nil
 	}
 	_,err := parseMsgPack2Value(b,v,sharebinary)
+	return v.loadResult(err)
+}
+
+//加载失败的时候，不保留只解析了一部分的内容
+func (v *DxValue)loadResult(err error)error  {
+	if err != nil{
+		v.Clear()
+		v.Reset(VT_NULL)
+	}
 	return err
 }
 
@@ -295,7 +304,7 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 			}
 		}
 	}
-	return err
+	return v.loadResult(err)
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
@@ -329,7 +338,7 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 	parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,v})
 	err := parser.parse()
 	freeyamlParser(parser)
-	return err
+	return v.loadResult(err)
 }
 
 func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
@@ -340,8 +349,9 @@ func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
+	v.Reset(VT_Object)
 	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
-	return  err
+	return v.loadResult(err)
 }
 
 func (v *DxValue)Reset(dt ValueType)  {
-- 
2.43.0


From fc823ed64267300f4c373c5f0553284403d9f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:15 +0000
Subject: [PATCH 15/42] fix: a MsgPack map header at the end of the input no
 longer panics

---
 msgpackparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index a2df411..54c90dc 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -34,7 +34,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if maplen == 0{
 		return b,nil
 	}
-	if !MsgPackCode(b[0]).IsStr(){
+	if len(b) == 0 || !MsgPackCode(b[0]).IsStr(){
 		return b,ErrMapKey
 	}
 	var rawbyte []byte
@@ -72,7 +72,7 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 	if maplen == 0{
 		return c.getValue(VT_Object),b,nil
 	}
-	if !MsgPackCode(b[0]).IsStr(){
+	if len(b) == 0 || !MsgPackCode(b[0]).IsStr(){
 		return nil,b,ErrMapKey
 	}
 	var rawbyte []byte
-- 
2.43.0


From 78752f3547bb2160c82632ba7199de130cfa3cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:20 +0000
Subject: [PATCH 16/42] fix: cut MsgPack extensions and times of a wrong length
 are rejected instead of panicking

---
 msgpackparse.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 54c90dc..641777b 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -290,7 +290,7 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 			return result,b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen <= exlen{ //还有一个字节的扩展类型
 			return nil,b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
@@ -309,7 +309,10 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 				sec &= 0x00000003ffffffff
 				t := time.Unix(int64(sec), nsec)
 				result.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
-			default:
+			case CodeExt8:
+				if exlen != 12{
+					return nil,b,fmt.Errorf("msgpack: invalid time length=%d",exlen)
+				}
 				nsec := binary.BigEndian.Uint32(b[1:])
 				sec := binary.BigEndian.Uint64(b[5:])
 				t := time.Unix(int64(sec), int64(nsec))
@@ -449,7 +452,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 			return b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen <= exlen{ //还有一个字节的扩展类型
 			return b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
@@ -467,7 +470,10 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				sec &= 0x00000003ffffffff
 				t := time.Unix(int64(sec), nsec)
 				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
-			default:
+			case CodeExt8:
+				if exlen != 12{
+					return b,fmt.Errorf("msgpack: invalid time length=%d",exlen)
+				}
 				nsec := binary.BigEndian.Uint32(b[1:])
 				sec := binary.BigEndian.Uint64(b[5:])
 				t := time.Unix(int64(sec), int64(nsec))
-- 
2.43.0


From 7f1e857be04566082eba3cafe8dbb51e6c874360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:25 +0000
Subject: [PATCH 17/42] fix: an undefined MsgPack code is an error

---
 msgpackparse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msgpackparse.go b/msgpackparse.go
index 641777b..836eee1 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -326,6 +326,8 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 				result.fbinary = append(result.fbinary[:0],b[:exlen+1]...)
 			}
 		}
+	default:
+		return nil,b,ErrInvalidateCode
 	}
 	return
 }
@@ -486,6 +488,8 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.fbinary = append(v.fbinary,b[:exlen+1]...)
 			}
 		}
+	default:
+		return b,ErrInvalidateCode
 	}
 	return
 }
-- 
2.43.0


From d4c7c4821bf6a4622804ba87737e17c9f01c16f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:30 +0000
Subject: [PATCH 18/42] fix: LoadFromMsgPack gives the value the type of the
 document

---
 msgpackparse.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 836eee1..a911dab 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -31,6 +31,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Object)
 	if maplen == 0{
 		return b,nil
 	}
@@ -140,11 +141,11 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Array)
 	if arrlen == 0{
 		return b,nil
 	}
 	var value *DxValue
-	v.Reset(VT_Array)
 	for i := 0;i<arrlen;i++{
 		value,b,err = parseMsgPackValue(b,c,sharebinary)
 		if err != nil{
@@ -343,11 +344,13 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return tail,err
 		}
+		v.Reset(VT_String)
 		if sharebinary{
 			v.fstrvalue = DxCommonLib.FastByte2String(strbt)
 		}else{
 			v.fstrvalue = string(strbt)
 		}
+		return tail,nil
 	case code.IsArray():
 		return parseMsgPackArray2V(code,b,v,sharebinary)
 	case code.IsMap():
@@ -416,6 +419,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Double)
 		v.SetDouble(*(*float64)(unsafe.Pointer(&u64)))
 		return b,nil
 	case code == CodeTrue:
@@ -439,6 +443,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		haslen := len(b)
 		if blen <= haslen{
 			tail = b[blen:]
+			v.Reset(VT_Binary)
 			if sharebinary{
 				v.fbinary = b[:blen]
 			}else{
@@ -460,6 +465,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		tail = b[exlen+1:]
 		if code.IsTime(b[0]){
 			//日期时间
+			v.Reset(VT_DateTime)
 			switch code {
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
@@ -482,6 +488,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
 			}
 		}else{
+			v.Reset(VT_ExBinary)
 			if sharebinary{
 				v.fbinary = b[:exlen+1]
 			}else{
-- 
2.43.0


From da22b641c7241af1f6d7b8543e64b19734318ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:30 +0000
Subject: [PATCH 19/42] fix: BSON values that reach past the end of the
 document are rejected instead of panicking

---
 bson_parse.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index ad1e012..06662ba 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -156,6 +156,25 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 }
 
 func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueLen,parseIndex int,err error)  {
+	//固定长度的部分
+	switch btype {
+	case BSON_Double,BSON_DateTime,BSON_Timestamp,BSON_Int64:
+		valueLen = 8
+	case BSON_String,BSON_Int32:
+		valueLen = 4
+	case BSON_Binary:
+		valueLen = 5
+	case BSON_ObjectID:
+		valueLen = 12
+	case BSON_Boolean:
+		valueLen = 1
+	case BSON_Decimal128:
+		valueLen = 16
+	}
+	if len(b) < valueLen{
+		return valueLen,0,ErrInvalidBSON
+	}
+	valueLen = 0
 	switch btype {
 	case BSON_Double:
 		u64 := binary.LittleEndian.Uint64(b[:8])
@@ -167,6 +186,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		parseIndex += 4
 		start := parseIndex
 		parseIndex += valueLen
+		if valueLen < 1 || parseIndex > len(b){
+			return valueLen,start,ErrInvalidBSON
+		}
 		//由于会多写一个字符串结束符0，所以，实际长度应该减去1
 		if shareBinary{
 			value.SetString(DxCommonLib.FastByte2String(b[start:parseIndex - 1]))
@@ -184,20 +206,23 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		subType := b[0]
 		if subType == 2{
 			parseIndex ++
-			b = b[parseIndex:]
+			b = b[1:]
+			if len(b) < 4{
+				return valueLen,parseIndex,ErrInvalidBSON
+			}
 			//再重新处理一遍
 			valueLen = int(binary.LittleEndian.Uint32(b[:4]))
 			parseIndex += 4
-			b = b[parseIndex:]
-			if valueLen > len(b){
-				return valueLen,parseIndex,ErrInvalidBSON
-			}
+			b = b[4:]
 			value.DataType = VT_Binary
 			value.ExtType = 0
 		}else{
 			//VT_ExBinary要将subType带上
 			valueLen ++
 		}
+		if valueLen > len(b){
+			return valueLen,parseIndex,ErrInvalidBSON
+		}
 		parseIndex += valueLen
 		if shareBinary{
 			value.SetBinary(b[:valueLen],false)
-- 
2.43.0


From cae485ba9643d186b1868538eb6ccc5cbaddae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:34 +0000
Subject: [PATCH 20/42] fix: unknown BSON element types are an error and not
 skipped without their content

---
 bson_parse.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 06662ba..a87995e 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -251,11 +251,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 8,8,nil
 	case BSON_Null:
 		//啥都不干
-	case BSON_Regex:
-	case BSON_DBPointer:
-	case BSON_JavaScript:
-	case BSON_Symbol:
-	case BSON_CodeWithScope:
+	case BSON_Regex,BSON_DBPointer,BSON_JavaScript,BSON_Symbol,BSON_CodeWithScope:
+		//还不支持，后面的内容不能当作下一个元素处理
+		return 0,0,ErrInvalidBSON
 	case BSON_Int32:
 		value.SetInt(int64(binary.LittleEndian.Uint32(b[:4])))
 		return 4,4,nil
@@ -275,6 +273,8 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 16,16,nil
 	case BSON_MinKey:
 	case BSON_MaxKey:
+	default:
+		return 0,0,ErrInvalidBSON
 	}
 	return
 }
-- 
2.43.0


From 69ab922d7d1ec39c129bdacdcac9fb3222eaaef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:51 +0000
Subject: [PATCH 21/42] fix: BSON documents must end where their length says,
 and elements stay inside them

---
 bson_parse.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index a87995e..2306803 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -27,15 +27,16 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 	}
 	//文档长度
 	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
+	if docLen <= 4 || docLen > len(b) || b[docLen - 1] != 0{
 		return docLen,0,ErrBadBSONDocLen
 	}
+	b = b[:docLen]
 	parseIndex = 4
 	var element *DxValue
 	var keyName string
 	//读取文档体，由一个个的元素组成
 	//每个元素为一个类型+字段名+值组成
-	for parseIndex < docLen{
+	for parseIndex < docLen - 1{
 		//读取类型
 		btype := BsonType(b[parseIndex])
 		parseIndex++
@@ -80,26 +81,30 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 			}
 		}
 
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
+	}
+	if parseIndex != docLen - 1{
+		return docLen,parseIndex,ErrInvalidBSON
 	}
 	return docLen,parseIndex,nil
 }
 
 //数组结构解析和文档结构解析差不多，将数组的索引号设定为docment的key
 func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docLen,parseIndex int,err error)  {
+	if len(b) <= 4{
+		return 0,0,ErrBadBSONDocLen
+	}
 	//文档长度
 	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
+	if docLen <= 4 || docLen > len(b) || b[docLen - 1] != 0{
 		return docLen,0,ErrBadBSONDocLen
 	}
+	b = b[:docLen]
 	parseIndex = 4
 	keyName := ""
 	//读取元素
 	//每个元素为一个类型+字段名+值组成,字段名为数组的索引序号
 	var element *DxValue
-	for parseIndex < docLen{
+	for parseIndex < docLen - 1{
 		btype := BsonType(b[parseIndex])
 		parseIndex++
 		//读取字段,cstring,ansic
@@ -148,9 +153,9 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 				return docLen,parseIndex + parseidx,err
 			}
 		}
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
+	}
+	if parseIndex != docLen - 1{
+		return docLen,parseIndex,ErrInvalidBSON
 	}
 	return docLen,parseIndex,nil
 }
-- 
2.43.0


From 748b01946a108bcfd8c4e49d8ec2c150bf212753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 22/42] fix: short binaries can be printed

---
 bin_value.go | 8 ++++++++
 dxvalue.go   | 6 +++---
 jsonparse.go | 6 +++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index 3f8f7b2..253fe5a 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -27,6 +27,14 @@ func (v *DxValue)BinLen()int  {
 	}
 }
 
+//二进制的前count个字节，不足的时候，有多少取多少
+func (v *DxValue)binaryPrefix(count int)[]byte  {
+	if len(v.fbinary) < count{
+		return v.fbinary
+	}
+	return v.fbinary[:count]
+}
+
 func (v *DxValue)SetExtType(t byte)  {
 	if v.DataType == VT_ExBinary{
 		if len(v.fbinary) > 0{
diff --git a/dxvalue.go b/dxvalue.go
index df911bb..ecb8808 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -783,18 +783,18 @@ func (v *DxValue)String()string  {
 		case uint8(BSON_ObjectID):
 			dst = make([]byte,0,48)
 			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.binaryPrefix(12))...)
 			dst = append(dst,'"','}')
 
 		case uint8(BSON_Decimal128):
 			dst = make([]byte,0,48)
 			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.binaryPrefix(16))...)
 			dst = append(dst,'"','}')
 		default:
 			dst = make([]byte,0,128)
 			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.binaryPrefix(12))...)
 			dst = append(dst,')')
 		}
 		return DxCommonLib.FastByte2String(dst)
diff --git a/jsonparse.go b/jsonparse.go
index 7471862..04f1ec3 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -785,15 +785,15 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		switch v.ExtType {
 		case uint8(BSON_ObjectID):
 			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.binaryPrefix(12))...)
 			dst = append(dst,'"','}')
 		case uint8(BSON_Decimal128):
 			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.binaryPrefix(16))...)
 			dst = append(dst,'"','}')
 		default:
 			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.binaryPrefix(12))...)
 			dst = append(dst,')')
 		}
 	case VT_String:
-- 
2.43.0


From 1fd622024f00f65ce8c4f25133e03767c4164f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:31 +0000
Subject: [PATCH 23/42] fix: an ObjectID or Decimal128 whose binary was
 replaced by a shorter one can be written as BSON

---
 bson_parse.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 2306803..a838dfa 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -425,7 +425,7 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 		unixMillisecond := int64(v.GoTime().Sub(time.Date(1970,1,1,0,0,0,0,time.UTC))/time.Millisecond)
 		dst = putLittI64(unixMillisecond,dst)
 	case VT_Binary:
-		switch v.ExtType {
+		switch bsonBinaryType(v) {
 		case uint8(BSON_ObjectID):
 			dst = append(dst,v.fbinary[:12]...)
 		case uint8(BSON_Decimal128):
@@ -459,6 +459,15 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 	return dst
 }
 
+//长度不够ObjectID或者Decimal128的，只能当普通二进制写入
+func bsonBinaryType(v *DxValue)uint8  {
+	if v.ExtType == 0 || v.ExtType == uint8(BSON_ObjectID) && len(v.fbinary) < 12 ||
+		v.ExtType == uint8(BSON_Decimal128) && len(v.fbinary) < 16{
+		return uint8(BSON_Binary)
+	}
+	return v.ExtType
+}
+
 func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 	if element == nil{
 		dst = append(dst,byte(BSON_Null))
@@ -487,11 +496,7 @@ func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 	case VT_DateTime:
 		dst = append(dst,byte(BSON_DateTime))
 	case VT_Binary,VT_ExBinary:
-		if element.ExtType != 0{
-			dst = append(dst,element.ExtType)
-		}else{
-			dst = append(dst,byte(BSON_Binary))
-		}
+		dst = append(dst,bsonBinaryType(element))
 		/*switch element.ExtType {
 		case uint8(BSON_ObjectID):
 			dst = append(dst,byte(BSON_ObjectID))
-- 
2.43.0


From cca0fc73906074bf08f7759bb68bef56413fca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:52 +0000
Subject: [PATCH 24/42] fix: copies keep binaries and extension types, and
 never share a node with their source

---
 dxvalue.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index ecb8808..39e333d 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -594,10 +594,11 @@ func (v *DxValue)Int()int64  {
 }
 
 func (v *DxValue)clone(c *ValueCache)*DxValue  {
-	if v.DataType >= VT_True{ //系统固定的值不变更
+	if v.DataType >= VT_True && v.ReadOnly(){ //系统固定的值不变更
 		return v
 	}
 	rootv := c.getValue(v.DataType)
+	rootv.ExtType = v.ExtType
 	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 		copy(rootv.simpleV[:],v.simpleV[:])
 		return rootv
@@ -605,6 +606,8 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 	switch v.DataType {
 	case VT_String,VT_RawString:
 		rootv.fstrvalue = v.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		rootv.fbinary = append(rootv.fbinary,v.fbinary...)
 	case VT_Object:
 		rootv.fobject.keysUnescaped = v.fobject.keysUnescaped
 		for i := 0; i<len(v.fobject.strkvs);i++{
@@ -647,7 +650,11 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 	if v.ReadOnly(){
 		return
 	}
+	if v == fromv{
+		return
+	}
 	v.Reset(fromv.DataType)
+	v.ExtType = fromv.ExtType
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -666,6 +673,8 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 		}
 	case VT_String,VT_RawString:
 		v.fstrvalue = fromv.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		v.fbinary = append(v.fbinary,fromv.fbinary...)
 	default:
 		if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 			copy(v.simpleV[:],fromv.simpleV[:])
-- 
2.43.0


From b123d7174dfcfdcd749e598868d9a74c9502d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 25/42] fix: Equal on arrays of different lengths returns false
 instead of panicking

---
 dxvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 39e333d..ced0bb8 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -554,7 +554,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 			}
 		}
 	case VT_Array:
-		if len(v.farr) != len(v.farr){
+		if len(v.farr) != len(value.farr){
 			return false
 		}
 		for i := 0;i<len(v.farr);i++{
-- 
2.43.0


From 779719ddb634236a51e1044ababa5a0cfcedfe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:46 +0000
Subject: [PATCH 26/42] fix: JSON dates no longer take their sub-second part
 from the clock

---
 jsonparse.go | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 04f1ec3..fa64afb 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -7,6 +7,8 @@ import (
 	"github.com/suiyunonghen/DxCommonLib"
 	"os"
 	"strconv"
+	"strings"
+	"time"
 )
 
 type JsonErrType	uint8
@@ -435,6 +437,46 @@ func NewValueFromJson(b []byte,useCache bool,sharebinary bool)(*DxValue,error)
 	return v,nil
 }
 
+//解析/Date(1402384458000+0800)/格式的日期时间，不是日期时间返回-1，
+//DxCommonLib.ParserJsonTime是从当前时间推算的，结果会带上当前时间的毫秒数
+func parseJsonTime(jsontime string)DxCommonLib.TDateTime  {
+	if strings.HasPrefix(jsontime,"Date(") && strings.HasSuffix(jsontime,")"){
+		jsontime = jsontime[5:len(jsontime)-1]
+	}else if strings.HasPrefix(jsontime,"/Date(") && strings.HasSuffix(jsontime,")/"){
+		jsontime = jsontime[6:len(jsontime)-2]
+	}else{
+		return -1
+	}
+	zone := ""
+	idx := strings.IndexByte(jsontime,'+')
+	if idx < 0{
+		idx = strings.IndexByte(jsontime,'-')
+	}
+	if idx >= 0{
+		zone = jsontime[idx+1:]
+		if len(zone) < 2{
+			return -1
+		}
+		zone = zone[:2]
+		jsontime = jsontime[:idx]
+	}
+	secs,err := strconv.ParseInt(jsontime,10,64)
+	if err != nil{
+		return -1
+	}
+	if len(jsontime) > 9{
+		secs = secs / 1000
+	}
+	if idx >= 0{
+		ctz,err := strconv.Atoi(zone)
+		if err != nil{
+			return -1
+		}
+		secs += int64(ctz * 60)
+	}
+	return DxCommonLib.Time2DelphiTime(time.Unix(secs,0))
+}
+
 func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
 	if len(b) == 0{
 		return nil,nil,&ErrorParseJson{
@@ -456,7 +498,7 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 		}
 		//先判断一下是否是Json的日期格式
 		var result *DxValue
-		dt := DxCommonLib.ParserJsonTime(ss)
+		dt := parseJsonTime(ss)
 		if dt < 0{
 			result = c.getValue(VT_RawString)
 			result.fstrvalue = ss
@@ -513,7 +555,7 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 			return tail, err
 		}
 		//先判断一下是否是Json的日期格式
-		dt := DxCommonLib.ParserJsonTime(ss)
+		dt := parseJsonTime(ss)
 		if dt < 0{
 			v.Reset(VT_RawString)
 			v.fstrvalue = ss
-- 
2.43.0


From 2f58e5715eba701d6197c2300b510a7b57abceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:51 +0000
Subject: [PATCH 27/42] fix: SetBinary and SetExtType never write into a shared
 input buffer or into bytes handed out before

---
 bin_value.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index 253fe5a..97316b4 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -37,10 +37,11 @@ func (v *DxValue)binaryPrefix(count int)[]byte  {
 
 func (v *DxValue)SetExtType(t byte)  {
 	if v.DataType == VT_ExBinary{
+		//fbinary可能和外部共享，不能直接修改其内容
 		if len(v.fbinary) > 0{
-			v.fbinary[0] = t
+			v.fbinary = append([]byte{t},v.fbinary[1:]...)
 		}else{
-			v.fbinary = append(v.fbinary,t)
+			v.fbinary = []byte{t}
 		}
 	}
 }
@@ -62,15 +63,15 @@ func (v *DxValue)Binary()[]byte  {
 func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 	switch v.DataType {
 	case VT_Binary:
+		//fbinary可能和外部共享，不能直接修改其内容
 		if valueClone{
-			v.fbinary = append(v.fbinary[:0],b...)
+			v.fbinary = append([]byte(nil),b...)
 		}else{
 			v.fbinary = b
 		}
 	case VT_ExBinary:
 		if len(v.fbinary) > 0{
-			v.fbinary = append(v.fbinary[:0],v.fbinary[0])
-			v.fbinary = append(v.fbinary,b...)
+			v.fbinary = append([]byte{v.fbinary[0]},b...)
 		}else{
 			v.Reset(VT_Binary)
 			if valueClone{
-- 
2.43.0


From 7c0617faf0ceb30df951f44ea354e778d47a42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:54 +0000
Subject: [PATCH 28/42] fix: lookups, comparisons and encoders no longer modify
 the value they read

---
 bson_parse.go |  3 +--
 dxvalue.go    | 34 ++++++++++++++++++++--------------
 jsonparse.go  | 10 ++--------
 3 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index a838dfa..9815cc3 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -312,7 +312,6 @@ func Value2Bson(v *DxValue, dst []byte)([]byte,error)  {
 }
 
 func writeObjBsonValue(v *DxValue, dst []byte)[]byte  {
-	v.fobject.UnEscapestrs()
 	//先留出文档长度
 	lenindex := len(dst)
 	dst = append(dst,0,0,0,0)
@@ -326,7 +325,7 @@ func writeObjBsonValue(v *DxValue, dst []byte)[]byte  {
 			return nil, err
 		}*/
 		//还是直接UTF8吧
-		bt := DxCommonLib.FastString2Byte(v.fobject.strkvs[i].K)
+		bt := DxCommonLib.FastString2Byte(v.fobject.keyName(i))
 		dst = append(dst,bt...)
 		dst = append(dst,0)
 		if v.fobject.strkvs[i].V == nil{
diff --git a/dxvalue.go b/dxvalue.go
index ced0bb8..53b052d 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -106,10 +106,10 @@ func (obj *VObject)indexByName(name string)int  {
 			}
 		}
 	}
-	//解转义
-	obj.UnEscapestrs()
+	//解转义后再比较，查找不修改自身
 	for i := 0;i<len(obj.strkvs);i++{
-		if IgnoreCase && strings.EqualFold(obj.strkvs[i].K,name) || obj.strkvs[i].K == name{
+		key := obj.keyName(i)
+		if IgnoreCase && strings.EqualFold(key,name) || key == name{
 			return i
 		}
 	}
@@ -124,16 +124,25 @@ func (obj *VObject) ValueByName(name string) *DxValue {
 			}
 		}
 	}
-	//解转义
-	obj.UnEscapestrs()
+	//解转义后再比较，查找不修改自身
 	for i := 0;i<len(obj.strkvs);i++{
-		if IgnoreCase && strings.EqualFold(obj.strkvs[i].K,name) || obj.strkvs[i].K == name{
+		key := obj.keyName(i)
+		if IgnoreCase && strings.EqualFold(key,name) || key == name{
 			return obj.strkvs[i].V
 		}
 	}
 	return nil
 }
 
+//解转义之后的键值名称
+func (obj *VObject)keyName(idx int)string  {
+	key := obj.strkvs[idx].K
+	if obj.keysUnescaped || strings.IndexByte(key,'\\') < 0{
+		return key
+	}
+	return DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(key))
+}
+
 func (obj *VObject)UnEscapestrs()  {
 	if obj.keysUnescaped {
 		return
@@ -545,10 +554,8 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 		if len(v.fobject.strkvs) != len(value.fobject.strkvs){
 			return false
 		}
-		v.fobject.UnEscapestrs()
-		value.fobject.UnEscapestrs()
 		for i := 0;i<len(v.fobject.strkvs);i++{
-			if v.fobject.strkvs[i].K != value.fobject.strkvs[i].K ||
+			if v.fobject.keyName(i) != value.fobject.keyName(i) ||
 				!v.fobject.strkvs[i].V.Equal(value.fobject.strkvs[i].V){
 				return false
 			}
@@ -809,9 +816,7 @@ func (v *DxValue)String()string  {
 		return DxCommonLib.FastByte2String(dst)
 	case VT_ExBinary:
 	case VT_RawString:
-		v.DataType = VT_String
-		v.fstrvalue = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(v.fstrvalue))
-		return v.fstrvalue
+		return DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(v.fstrvalue))
 	case VT_Object,VT_Array:
 		return DxCommonLib.FastByte2String(Value2FormatJson(v,JSE_OnlyAnsiChar,false,nil))
 	}
@@ -865,8 +870,7 @@ func (v *DxValue)Items(idx int)(string,*DxValue)  {
 		}
 	case VT_Object:
 		if idx >= 0 && idx < len(v.fobject.strkvs){
-			v.fobject.UnEscapestrs()
-			return v.fobject.strkvs[idx].K,v.fobject.strkvs[idx].V
+			return v.fobject.keyName(idx),v.fobject.strkvs[idx].V
 		}
 	}
 	return "",nil
@@ -1217,6 +1221,7 @@ func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
 		}
 		return result
 	}
+	v.fobject.UnEscapestrs() //新的Name是没有转义的
 	kv := v.fobject.getKv()
 	kv.K = Name
 	kv.V = c.getValue(tp)
@@ -1247,6 +1252,7 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 	if idx >= 0{
 		v.fobject.strkvs[idx].V = value
 	}else{
+		v.fobject.UnEscapestrs() //新的Name是没有转义的
 		kv := v.fobject.getKv()
 		kv.K = Name
 		kv.V = value
diff --git a/jsonparse.go b/jsonparse.go
index fa64afb..41fd90a 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -713,10 +713,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 
 			switch escapeStyle {
 			case JSE_NoEscape:
-				if !v.fobject.keysUnescaped{
-					v.fobject.UnEscapestrs()
-				}
-				dst = append(dst,v.fobject.strkvs[i].K...)
+				dst = append(dst,v.fobject.keyName(i)...)
 			default:
 				if escapeStyle != JSE_NoEscape &&  v.fobject.keysUnescaped{
 					dst = DxCommonLib.EscapeJsonbyte(v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape,dst)
@@ -812,10 +809,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 					dst = append(dst,v.fobject.strkvs[i].K...)
 				}
 			}else{
-				if !v.fobject.keysUnescaped{
-					v.fobject.UnEscapestrs()
-				}
-				dst = append(dst,v.fobject.strkvs[i].K...)
+				dst = append(dst,v.fobject.keyName(i)...)
 			}
 			dst = append(dst,`":`...)
 			dst = formatValue(v.fobject.strkvs[i].V,escapeStyle,escapeDatetime,dst,level+1)
-- 
2.43.0


From 1898652b58818d89367b75a9a592f2f274a6df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:59 +0000
Subject: [PATCH 29/42] fix: AddFrom keeps the keys of both objects readable
 and may add a value to itself

---
 dxvalue.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 53b052d..4bb9eed 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -639,15 +639,16 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 		if c == nil{
 			c = v.ownercache
 		}
-		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
-		for i := 0; i<len(fromv.fobject.strkvs);i++{
+		v.fobject.UnEscapestrs()
+		for i,l := 0,len(fromv.fobject.strkvs); i<l;i++{
+			newv := fromv.fobject.strkvs[i].V.clone(c)
 			rkv := v.fobject.getKv()
-			rkv.K = fromv.fobject.strkvs[i].K
-			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
+			rkv.K = fromv.fobject.keyName(i)
+			rkv.V = newv
 		}
 	case VT_Array:
 		c := v.ownercache
-		for i := 0;i < len(fromv.farr);i++{
+		for i,l := 0,len(fromv.farr);i < l;i++{
 			v.farr = append(v.farr, fromv.farr[i].clone(c))
 		}
 	}
@@ -669,9 +670,10 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 		}
 		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
+			newv := fromv.fobject.strkvs[i].V.clone(c)
 			rkv := v.fobject.getKv()
 			rkv.K = fromv.fobject.strkvs[i].K
-			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
+			rkv.V = newv
 		}
 	case VT_Array:
 		c := v.ownercache
-- 
2.43.0


From b7f276217744157dad340d1a82794b11bcfe8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:41 +0000
Subject: [PATCH 30/42] fix: every accessor and encoder shows the same,
 unescaped key names

---
 dxvalue.go      | 11 ++++++-----
 msgpackparse.go |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 4bb9eed..7262556 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -463,13 +463,14 @@ type MergeFunc	func(keyPath string, oldv *DxValue,newv *DxValue)MergeOp
 func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte  {
 	mergeOp := MO_Normal
 	for i := 0;i<len(value.fobject.strkvs);i++{
-		idx := v.fobject.indexByName(value.fobject.strkvs[i].K)
+		key := value.fobject.keyName(i)
+		idx := v.fobject.indexByName(key)
 		if idx != -1{
 			if mergefunc!=nil{
 				if len(parentpath) != 0{
 					parentpath = append(parentpath,'/')
 				}
-				parentpath = append(parentpath,value.fobject.strkvs[i].K...)
+				parentpath = append(parentpath,key...)
 				mergeOp = mergefunc(DxCommonLib.FastByte2String(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
 			}
 			if mergeOp == MO_Normal{
@@ -492,7 +493,7 @@ func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte
 			}
 		}else{
 			//没有，直接增加
-			v.SetKeyValue(value.fobject.strkvs[i].K,value.fobject.strkvs[i].V.clone(nil))
+			v.SetKeyValue(key,value.fobject.strkvs[i].V.clone(nil))
 		}
 	}
 	return parentpath
@@ -1410,7 +1411,7 @@ func (v *DxValue)ValueByIndex(idx int)*DxValue{
 func (v *DxValue)KeyNameByIndex(idx int)string  {
 	if v.DataType == VT_Object{
 		if idx >= 0 && idx < len(v.fobject.strkvs){
-			return v.fobject.strkvs[idx].K
+			return v.fobject.keyName(idx)
 		}
 	}
 	return ""
@@ -1420,7 +1421,7 @@ func (v *DxValue)Visit(f func(Key string,value *DxValue) bool)  {
 	switch v.DataType {
 	case VT_Object:
 		for i := 0;i<len(v.fobject.strkvs);i++{
-			if !f(v.fobject.strkvs[i].K,v.fobject.strkvs[i].V){
+			if !f(v.fobject.keyName(i),v.fobject.strkvs[i].V){
 				return
 			}
 		}
diff --git a/msgpackparse.go b/msgpackparse.go
index a911dab..5145849 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -539,9 +539,10 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		dst = writeMapCode(l,dst)
 		for i := 0;i < l;i++{
 			kv := v.fobject.strkvs[i]
-			l := len(kv.K)
+			key := v.fobject.keyName(i)
+			l := len(key)
 			dst = writeStrCode(l,dst)
-			dst = append(dst,DxCommonLib.FastString2Byte(kv.K)...)
+			dst = append(dst,DxCommonLib.FastString2Byte(key)...)
 			dst = Value2MsgPack(kv.V,dst)
 		}
 	case VT_Array:
-- 
2.43.0


From c6fbd6ae44b66756d7f5b4a1b63aef4d0dd8cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:57 +0000
Subject: [PATCH 31/42] fix: AddFrom into an empty object keeps the keys in the
 form the source holds them

---
 dxvalue.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 7262556..27b93f2 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -640,11 +640,18 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 		if c == nil{
 			c = v.ownercache
 		}
-		v.fobject.UnEscapestrs()
+		if len(v.fobject.strkvs) == 0{
+			v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
+		}else if v.fobject.keysUnescaped != fromv.fobject.keysUnescaped{
+			v.fobject.UnEscapestrs()
+		}
 		for i,l := 0,len(fromv.fobject.strkvs); i<l;i++{
 			newv := fromv.fobject.strkvs[i].V.clone(c)
 			rkv := v.fobject.getKv()
-			rkv.K = fromv.fobject.keyName(i)
+			rkv.K = fromv.fobject.strkvs[i].K
+			if v.fobject.keysUnescaped{
+				rkv.K = fromv.fobject.keyName(i)
+			}
 			rkv.V = newv
 		}
 	case VT_Array:
-- 
2.43.0


From ef89eefa53c8c34ac4bce73f8768d7960b80ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:13 +0000
Subject: [PATCH 32/42] fix: decoding into slices of times, handled types or
 with spare capacity no longer panics

---
 reflect_parse.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index ec0bfd0..7614d1f 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -71,17 +71,13 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 	if n == 0{
 		return false
 	}
-	var vtype reflect.Type
+	vtype := sliceValue.Type().Elem()
 	if sliceValue.Cap() == 0{
 		vslice := reflect.MakeSlice(sliceValue.Type(), n, n)
-		sv := vslice.Index(0)
-		vtype = sv.Type()
 		sliceValue.Set(vslice.Slice(0, n))
 	}else if sliceValue.Cap() >= n {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
 		sliceValue.Set(sliceValue.Slice(0, n))
 	} else if sliceValue.Len() < sliceValue.Cap() {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
 		sliceValue.Set(sliceValue.Slice(0, sliceValue.Cap()))
 	}
 
@@ -91,7 +87,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			sliceValue.Field(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
+			sliceValue.Index(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
 		}
 		return true
 	}
@@ -105,7 +101,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 				if i >= sliceValue.Len() {
 					sliceValue.Set(growSliceValue(sliceValue, n))
 				}
-				convertHandler(sliceValue.Field(i),arrNode)
+				convertHandler(sliceValue.Index(i),arrNode)
 			}
 			return true
 		}
@@ -117,7 +113,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			sliceValue.Field(i).Set(reflect.ValueOf(arrNode.GoTime()))
+			sliceValue.Index(i).Set(reflect.ValueOf(arrNode.GoTime()))
 		}
 		return true
 	}
-- 
2.43.0


From 9f6a3c51816a27c87cd300251add454ef3c1f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:13 +0000
Subject: [PATCH 33/42] fix: unsigned struct fields can be converted

---
 reflect_parse.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 7614d1f..7cc1d89 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -351,9 +351,10 @@ func (v *DxValue)SetValue(value interface{})  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						v.SetKeyValue(sfield.Name,valueTrue)
@@ -607,9 +608,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
@@ -837,9 +839,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
-- 
2.43.0


From 2db94ca350299c51fc7a39c35e230ab9a71245fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:13 +0000
Subject: [PATCH 34/42] fix: nil pointers in structs and maps become null
 instead of panicking

---
 reflect_parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index 7cc1d89..2964990 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -367,6 +367,8 @@ func (v *DxValue)SetValue(value interface{})  {
 					v.SetKeyCached(sfield.Name,VT_Double,cache).SetDouble(fv.Float())
 				case reflect.String:
 					v.SetKeyCached(sfield.Name,VT_String,cache).SetString(fv.String())
+				case reflect.Invalid: //空指针
+					v.SetKeyCached(sfield.Name,VT_NULL,cache)
 				default:
 					if fv.CanInterface(){
 						fvtp := fv.Type()
@@ -418,6 +420,8 @@ func (v *DxValue)SetValue(value interface{})  {
 					v.SetKeyCached(kv.String(),VT_Double,cache).SetDouble(rvalue.Float())
 				case reflect.String:
 					v.SetKeyCached(kv.String(),VT_String,cache).SetString(rvalue.String())
+				case reflect.Invalid: //空指针
+					v.SetKeyCached(kv.String(),VT_NULL,cache)
 				default:
 					if rvalue.CanInterface(){
 						rvType := rvalue.Type()
@@ -624,6 +628,8 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					newv.SetKeyCached(sfield.Name,VT_Double,cache).SetDouble(fv.Float())
 				case reflect.String:
 					newv.SetKeyCached(sfield.Name,VT_String,cache).SetString(fv.String())
+				case reflect.Invalid: //空指针
+					newv.SetKeyCached(sfield.Name,VT_NULL,cache)
 				default:
 					if fv.CanInterface(){
 						newv.SetKeyvalue(sfield.Name,fv.Interface(),cache)
@@ -665,6 +671,8 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					newv.SetKeyCached(kv.String(),VT_Double,cache).SetDouble(rvalue.Float())
 				case reflect.String:
 					newv.SetKeyCached(kv.String(),VT_String,cache).SetString(rvalue.String())
+				case reflect.Invalid: //空指针
+					newv.SetKeyCached(kv.String(),VT_NULL,cache)
 				default:
 					if rvalue.CanInterface(){
 						newv.SetKeyvalue(kv.String(),rvalue.Interface(),cache)
@@ -855,6 +863,8 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					newv.SetKeyCached(sfield.Name,VT_Double,cache).SetDouble(fv.Float())
 				case reflect.String:
 					newv.SetKeyCached(sfield.Name,VT_String,cache).SetString(fv.String())
+				case reflect.Invalid: //空指针
+					newv.SetKeyCached(sfield.Name,VT_NULL,cache)
 				default:
 					if fv.CanInterface(){
 						newv.SetKeyvalue(sfield.Name,fv.Interface(),cache)
@@ -896,6 +906,8 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					newv.SetKeyCached(kv.String(),VT_Double,cache).SetDouble(rvalue.Float())
 				case reflect.String:
 					newv.SetKeyCached(kv.String(),VT_String,cache).SetString(rvalue.String())
+				case reflect.Invalid: //空指针
+					newv.SetKeyCached(kv.String(),VT_NULL,cache)
 				default:
 					if rvalue.CanInterface(){
 						newv.SetKeyvalue(kv.String(),rvalue.Interface(),cache)
-- 
2.43.0


From b1b5e8fa3674712c309ffda025c6815543a210eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:49 +0000
Subject: [PATCH 35/42] fix: merging continues after a common child, with the
 right paths, and unites arrays

---
 dxvalue.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 27b93f2..510a33c 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -462,20 +462,25 @@ type MergeFunc	func(keyPath string, oldv *DxValue,newv *DxValue)MergeOp
 
 func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte  {
 	mergeOp := MO_Normal
+	pathlen := len(parentpath)
 	for i := 0;i<len(value.fobject.strkvs);i++{
 		key := value.fobject.keyName(i)
 		idx := v.fobject.indexByName(key)
 		if idx != -1{
 			if mergefunc!=nil{
-				if len(parentpath) != 0{
+				parentpath = parentpath[:pathlen] //每个键都是从父节点的路径开始
+				if pathlen != 0{
 					parentpath = append(parentpath,'/')
 				}
 				parentpath = append(parentpath,key...)
-				mergeOp = mergefunc(DxCommonLib.FastByte2String(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
+				mergeOp = mergefunc(string(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
 			}
 			if mergeOp == MO_Normal{
-				if v.fobject.strkvs[idx].V.DataType <= VT_Array{
-					return mergeObject(parentpath,v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V,mergefunc)
+				oldchild,newchild := v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V
+				if oldchild.DataType == VT_Object && newchild.DataType == VT_Object{
+					parentpath = mergeObject(parentpath,oldchild,newchild,mergefunc)
+				}else if oldchild.DataType <= VT_Array{
+					oldchild.MergeWith(newchild,mergefunc) //数组取并集
 				}else{
 					//合并成数组
 					oldobj := v.fobject.strkvs[idx].V.clone(nil)
-- 
2.43.0


From cdb559453e25a2dfc26baf75097e735fffc6885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:49 +0000
Subject: [PATCH 36/42] fix: a map, slice or struct stored over old content
 replaces it

---
 reflect_parse.go | 75 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 2964990..ae808b5 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -387,6 +387,9 @@ func (v *DxValue)SetValue(value interface{})  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
+				if reflectv.Type().Key().Kind() == reflect.String{
+					v.Reset(VT_Object)
+				}
 				return
 			}
 			kv := mapkeys[0]
@@ -455,6 +458,20 @@ func (v *DxValue)SetValue(value interface{})  {
 	}
 }
 
+//取出指定键的节点并且清空原来的内容
+func (v *DxValue)replaceKeyCached(Name string,tp ValueType,cache *ValueCache)*DxValue  {
+	result := v.SetKeyCached(Name,tp,cache)
+	result.Reset(tp)
+	return result
+}
+
+//取出指定索引的节点并且清空原来的内容
+func (v *DxValue)replaceIndexCached(idx int,tp ValueType,cache *ValueCache)*DxValue  {
+	result := v.SetIndexCached(idx,tp,cache)
+	result.Reset(tp)
+	return result
+}
+
 func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 	switch realv := value.(type) {
 	case int:
@@ -532,52 +549,52 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 	case *[]byte:
 		v.SetKeyCached(Name,VT_Binary,cache).SetBinary(*realv,true)
 	case map[string]interface{}:
-		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv := v.replaceKeyCached(Name,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case *map[string]interface{}:
-		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv := v.replaceKeyCached(Name,VT_Object,cache)
 		for key,objv := range *realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case map[string]string:
-		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv := v.replaceKeyCached(Name,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case *map[string]string:
-		newv := v.SetKeyCached(Name,VT_Object,v.ownercache)
+		newv := v.replaceKeyCached(Name,VT_Object,v.ownercache)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case map[string]int:
-		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv := v.replaceKeyCached(Name,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case *map[string]int:
-		newv := v.SetKeyCached(Name,VT_Object,cache)
+		newv := v.replaceKeyCached(Name,VT_Object,cache)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case []interface{}:
-		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv := v.replaceKeyCached(Name,VT_Array,cache)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexvalue(i,realv[i],cache)
 		}
 	case *[]interface{}:
-		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv := v.replaceKeyCached(Name,VT_Array,cache)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexvalue(i,(*realv)[i],cache)
 		}
 	case []string:
-		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv := v.replaceKeyCached(Name,VT_Array,cache)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString(realv[i])
 		}
 	case *[]string:
-		newv := v.SetKeyCached(Name,VT_Array,cache)
+		newv := v.replaceKeyCached(Name,VT_Array,cache)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString((*realv)[i])
 		}
@@ -604,7 +621,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				v.SetKeyCached(Name,VT_DateTime,cache).SetTime(*(reflectv.Interface().(*time.Time)))
 				return
 			}
-			newv := v.SetKeyCached(Name,VT_Object,cache)
+			newv := v.replaceKeyCached(Name,VT_Object,cache)
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
@@ -639,6 +656,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
+				if reflectv.Type().Key().Kind() == reflect.String{
+					v.replaceKeyCached(Name,VT_Object,cache)
+				}
 				return
 			}
 			kv := mapkeys[0]
@@ -648,7 +668,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			if kv.Kind() != reflect.String{
 				return
 			}
-			newv := v.SetKeyCached(Name,VT_Object,cache)
+			newv := v.replaceKeyCached(Name,VT_Object,cache)
 			for _,kv = range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
@@ -680,7 +700,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				}
 			}
 		case reflect.Slice:
-			newv := v.SetKeyCached(Name,VT_Array,cache)
+			newv := v.replaceKeyCached(Name,VT_Array,cache)
 			vlen := reflectv.Len()
 			for i := 0;i<vlen;i++{
 				av := reflectv.Index(i)
@@ -773,52 +793,52 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 	case *[]byte:
 		v.SetIndexCached(idx,VT_Binary,cache).SetBinary(*realv,true)
 	case map[string]interface{}:
-		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv := v.replaceIndexCached(idx,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case *map[string]interface{}:
-		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv := v.replaceIndexCached(idx,VT_Object,cache)
 		for key,objv := range *realv{
 			newv.SetKeyvalue(key,objv,cache)
 		}
 	case map[string]string:
-		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv := v.replaceIndexCached(idx,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case *map[string]string:
-		newv := v.SetIndexCached(idx,VT_Object,v.ownercache)
+		newv := v.replaceIndexCached(idx,VT_Object,v.ownercache)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_String,cache).SetString(objv)
 		}
 	case map[string]int:
-		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv := v.replaceIndexCached(idx,VT_Object,cache)
 		for key,objv := range realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case *map[string]int:
-		newv := v.SetIndexCached(idx,VT_Object,cache)
+		newv := v.replaceIndexCached(idx,VT_Object,cache)
 		for key,objv := range *realv{
 			newv.SetKeyCached(key,VT_Int,cache).SetInt(int64(objv))
 		}
 	case []interface{}:
-		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv := v.replaceIndexCached(idx,VT_Array,cache)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexvalue(i,realv[i],cache)
 		}
 	case *[]interface{}:
-		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv := v.replaceIndexCached(idx,VT_Array,cache)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexvalue(i,(*realv)[i],cache)
 		}
 	case []string:
-		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv := v.replaceIndexCached(idx,VT_Array,cache)
 		for i := 0;i<len(realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString(realv[i])
 		}
 	case *[]string:
-		newv := v.SetIndexCached(idx,VT_Array,cache)
+		newv := v.replaceIndexCached(idx,VT_Array,cache)
 		for i := 0;i<len(*realv);i++{
 			newv.SetIndexCached(i,VT_String,cache).SetString((*realv)[i])
 		}
@@ -839,7 +859,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		}
 		switch reflectv.Kind(){
 		case reflect.Struct:
-			newv := v.SetIndexCached(idx,VT_Object,cache)
+			newv := v.replaceIndexCached(idx,VT_Object,cache)
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
@@ -874,6 +894,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
+				if reflectv.Type().Key().Kind() == reflect.String{
+					v.replaceIndexCached(idx,VT_Object,cache)
+				}
 				return
 			}
 			kv := mapkeys[0]
@@ -883,7 +906,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			if kv.Kind() != reflect.String{
 				return
 			}
-			newv := v.SetIndexCached(idx,VT_Object,cache)
+			newv := v.replaceIndexCached(idx,VT_Object,cache)
 			for _,kv = range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
 				if rvalue.Kind() == reflect.Ptr{
@@ -916,7 +939,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			}
 		case reflect.Slice:
 			//数组的话
-			newarr := v.SetIndexCached(idx,VT_Array,cache)
+			newarr := v.replaceIndexCached(idx,VT_Array,cache)
 			vlen := reflectv.Len()
 			for i := 0;i<vlen;i++{
 				av := reflectv.Index(i)
-- 
2.43.0


From de34b9c707dcd29a2a1c5a7b14a86312c69a9fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:37 +0000
Subject: [PATCH 37/42] fix: released nodes no longer keep other values alive

---
 cache.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cache.go b/cache.go
index 0b8a29d..945e2cf 100644
--- a/cache.go
+++ b/cache.go
@@ -10,6 +10,7 @@ var(
 
 type	ValueCache struct {
 	fisroot	bool
+	fused	int		//上次回收以来用过的节点数
 	Value	[]DxValue
 }
 
@@ -53,6 +54,9 @@ func getCache()*ValueCache  {
 }
 
 func (c *ValueCache)Reset(toRoot bool)  {
+	if len(c.Value) > c.fused{
+		c.fused = len(c.Value)
+	}
 	if !toRoot{
 		c.Value = c.Value[:1]
 	}else{
@@ -70,6 +74,28 @@ func FreeValue(v *DxValue)  {
 	v.ownercache = nil
 	if c!=nil{
 		c.Reset(true)
+		c.dropRefs()
 		ValueCachePool.Put(c)
 	}
 }
+
+//回收的节点不再引用旧内容，否则池中的缓存会一直保留挂在其下的其它Value
+func (c *ValueCache)dropRefs()  {
+	nodes := c.Value[:c.fused]
+	c.fused = 0
+	for i := range nodes{
+		v := &nodes[i]
+		kvs := v.fobject.strkvs[:cap(v.fobject.strkvs)]
+		for j := range kvs{
+			kvs[j] = strkv{}
+		}
+		v.fobject.strkvs = kvs[:0]
+		arr := v.farr[:cap(v.farr)]
+		for j := range arr{
+			arr[j] = nil
+		}
+		v.farr = arr[:0]
+		v.fstrvalue = ""
+		v.fbinary = nil
+	}
+}
-- 
2.43.0


From 57496ecb1edb6b70211ad659c982cba3ed73e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:53 +0000
Subject: [PATCH 38/42] fix: limit the nesting depth of JSON, MsgPack and BSON
 documents

A megabyte of opening brackets (or MsgPack array headers) exhausted the stack, which ends the whole process and cannot be
recovered from. Documents nested deeper than 10000 levels are rejected with an error, as encoding/json does.
---
 bson_parse.go   | 20 +++++++++++++-------
 dxvalue.go      |  6 +++++-
 jsonparse.go    | 23 +++++++++++++----------
 msgpackparse.go | 23 +++++++++++++----------
 4 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 9815cc3..09d819d 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -21,7 +21,10 @@ var(
 BSON文档（对象）由一个有序的元素列表构成。每个元素由一个字段名、一个类型和一个值组成。字段名为字符串。
 所以BSON文档必然是Object
  */
-func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *DxValue)(docLen,parseIndex int,err error)  {
+func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *DxValue,depth int)(docLen,parseIndex int,err error)  {
+	if depth >= maxDepth{
+		return 0,0,ErrTooDeep
+	}
 	if len(b) <= 4{
 		return 0,0,ErrBadBSONDocLen
 	}
@@ -57,7 +60,7 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 		switch btype {
 		case BSON_Array:
 			element = documentValue.SetKeyCached(keyName,VT_Array,c)
-			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,sharebinary)
+			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,sharebinary,depth+1)
 			if err == nil{
 				parseIndex += arraylen
 			}else{
@@ -65,7 +68,7 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 			}
 		case BSON_EmbeddedDocument:
 			element = documentValue.SetKeyCached(keyName,VT_Object,c)
-			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,sharebinary,element)
+			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,sharebinary,element,depth+1)
 			if err == nil{
 				parseIndex += doclen
 			}else{
@@ -89,7 +92,10 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 }
 
 //数组结构解析和文档结构解析差不多，将数组的索引号设定为docment的key
-func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docLen,parseIndex int,err error)  {
+func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool,depth int)(docLen,parseIndex int,err error)  {
+	if depth >= maxDepth{
+		return 0,0,ErrTooDeep
+	}
 	if len(b) <= 4{
 		return 0,0,ErrBadBSONDocLen
 	}
@@ -130,7 +136,7 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 		switch btype {
 		case BSON_Array:
 			element = value.SetIndexCached(arridx,VT_Array,c)
-			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,shareBinary)
+			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,shareBinary,depth+1)
 			if err == nil{
 				parseIndex += arraylen
 			}else{
@@ -138,7 +144,7 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 			}
 		case BSON_EmbeddedDocument:
 			element = value.SetIndexCached(arridx,VT_Object,c)
-			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,shareBinary,element)
+			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,shareBinary,element,depth+1)
 			if err == nil{
 				parseIndex += doclen
 			}else{
@@ -292,7 +298,7 @@ func NewValueFromBson(b []byte,useCache bool,sharebinary bool)(*DxValue,error)
 		c = getCache()
 	}
 	root := c.getValue(VT_Object)
-	_,_,err := parseBsonDocument(b,c,sharebinary,root)
+	_,_,err := parseBsonDocument(b,c,sharebinary,root,0)
 	if err != nil{
 		return nil, err
 	}
diff --git a/dxvalue.go b/dxvalue.go
index 510a33c..ce54870 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -33,8 +33,12 @@ const(
 var(
 	IgnoreCase = false		//是否忽略大小写
 	ErrReadOnly = errors.New("the value is a shared constant and can not be changed")
+	ErrTooDeep = errors.New("the document is nested too deeply")
 )
 
+//解析时允许的最大嵌套层数，太深的嵌套会耗尽栈空间，进程直接中止
+const maxDepth = 10000
+
 
 type  strkv struct {
 	K			string
@@ -359,7 +363,7 @@ func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
 		return nil
 	}
 	v.Reset(VT_Object)
-	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
+	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v,0)
 	return v.loadResult(err)
 }
 
diff --git a/jsonparse.go b/jsonparse.go
index 41fd90a..63d3850 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -65,7 +65,7 @@ func (err *ErrorParseJson)Error()string  {
 
 //解析从fastjson中的代码修改
 //如果成功，tail中返回的是剩下的字节内容，否则发生错误的话，tail中返回的是当前正在解析的数据
-func parseJsonObj(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseJsonObj(b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error)  {
 	oldb := b
 	b,skiplen := skipWB(b)
 	if len(b) == 0{
@@ -115,7 +115,7 @@ func parseJsonObj(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail
 		oldb = b
 		b,skiplen = skipWB(b[1:])
 		//解析Value
-		kv.V, b, err = parseJsonValue(b,c,sharebinary)
+		kv.V, b, err = parseJsonValue(b,c,sharebinary,depth+1)
 		if err != nil {
 			result = nil
 			tail = b
@@ -191,7 +191,7 @@ func parseJsonObj2V(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)
 		oldb = b
 		b,skiplen = skipWB(b[1:])
 		//解析Value
-		kv.V, b, err = parseJsonValue(b,v.ownercache,sharebinary)
+		kv.V, b, err = parseJsonValue(b,v.ownercache,sharebinary,1)
 		if err != nil {
 			return b,err
 		}
@@ -294,7 +294,7 @@ func parseJsonString(b []byte,sharebinary bool) (value string, tail []byte, err
 	}
 }
 
-func parseJsonArray(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseJsonArray(b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error)  {
 	oldb := b
 	b,skiplen := skipWB(b)
 	if len(b) == 0 {
@@ -316,7 +316,7 @@ func parseJsonArray(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	for {
 		oldb = b
 		b,skiplen = skipWB(b)
-		v, b, err = parseJsonValue(b,c,sharebinary)
+		v, b, err = parseJsonValue(b,c,sharebinary,depth+1)
 		if err != nil {
 			return nil,b,err
 		}
@@ -367,7 +367,7 @@ func parseJsonArray2V(b []byte,result *DxValue,sharebinary bool)(tail []byte,err
 	for {
 		oldb = b
 		b,skiplen = skipWB(b)
-		v, b, err = parseJsonValue(b,result.ownercache,sharebinary)
+		v, b, err = parseJsonValue(b,result.ownercache,sharebinary,1)
 		if err != nil {
 			return b,err
 		}
@@ -421,7 +421,7 @@ func NewValueFromJson(b []byte,useCache bool,sharebinary bool)(*DxValue,error)
 		c = getCache()
 	}
 	b,skiplen := skipWB(b)
-	v, tail, err := parseJsonValue(b,c,sharebinary)
+	v, tail, err := parseJsonValue(b,c,sharebinary,0)
 	if err != nil {
 		return nil, err
 	}
@@ -477,7 +477,7 @@ func parseJsonTime(jsontime string)DxCommonLib.TDateTime  {
 	return DxCommonLib.Time2DelphiTime(time.Unix(secs,0))
 }
 
-func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseJsonValue(b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error)  {
 	if len(b) == 0{
 		return nil,nil,&ErrorParseJson{
 			Type:         0,
@@ -485,11 +485,14 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 			parseB:       b,
 		}
 	}
+	if depth >= maxDepth && (b[0] == '{' || b[0] == '['){
+		return nil,b,ErrTooDeep
+	}
 	if b[0] == '{'{
-		return parseJsonObj(b[1:],c,sharebinary)
+		return parseJsonObj(b[1:],c,sharebinary,depth)
 	}
 	if b[0] == '[' {
-		return parseJsonArray(b[1:],c,sharebinary)
+		return parseJsonArray(b[1:],c,sharebinary,depth)
 	}
 	if b[0] == '"' {
 		ss, tail, err := parseJsonString(b[1:],sharebinary)
diff --git a/msgpackparse.go b/msgpackparse.go
index 5145849..ea42de2 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -55,7 +55,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 		}else{
 			key = string(rawbyte)
 		}
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,1)
 		if err != nil{
 			return b,err
 		}
@@ -65,7 +65,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	return
 }
 
-func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error)  {
 	maplen,b,err := parseMapLen(code,b)
 	if err != nil{
 		return nil,b,err
@@ -99,7 +99,7 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 		}else{
 			key = string(rawbyte)
 		}
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,depth+1)
 		if err != nil{
 			FreeValue(result)
 			return nil,b,err
@@ -111,7 +111,7 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 }
 
 
-func parseMsgPackArray(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error){
+func parseMsgPackArray(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error){
 	arrlen,b,err := parseArrLen(code,b)
 	if err != nil{
 		return nil,b,err
@@ -125,7 +125,7 @@ func parseMsgPackArray(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool)
 		c = result.ValueCache()
 	}
 	for i := 0;i<arrlen;i++{
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,depth+1)
 		if err != nil{
 			FreeValue(result)
 			return nil,b,err
@@ -147,7 +147,7 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	}
 	var value *DxValue
 	for i := 0;i<arrlen;i++{
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,1)
 		if err != nil{
 			return b,err
 		}
@@ -156,11 +156,14 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	return b,err
 }
 
-func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error)  {
 	code,b,err := readCode(b)
 	if err != nil{
 		return nil,b,err
 	}
+	if depth >= maxDepth && (code.IsArray() || code.IsMap()){
+		return nil,b,ErrTooDeep
+	}
 	switch  {
 	case code.IsStr():
 		strbt,tail,err := parseString(code,b)
@@ -175,9 +178,9 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 		}
 		return result,tail,nil
 	case code.IsArray():
-		return parseMsgPackArray(code,b,c,sharebinary)
+		return parseMsgPackArray(code,b,c,sharebinary,depth)
 	case code.IsMap():
-		return parseMsgPackObject(code,b,c,sharebinary)
+		return parseMsgPackObject(code,b,c,sharebinary,depth)
 	case code.IsFixedNum():
 		result = c.getValue(VT_Int)
 		result.SetInt(int64(int8(code)))
@@ -508,7 +511,7 @@ func NewValueFromMsgPack(b []byte,useCache bool,sharebinary bool)(*DxValue,error
 	}else{
 		c = getCache()
 	}
-	v, _, err := parseMsgPackValue(b,c,sharebinary)
+	v, _, err := parseMsgPackValue(b,c,sharebinary,0)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d8bc8fd4e24bf5895740734d4cf634807aa2db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 39/42] fix: a JSON error keeps its text when the caller reuses
 the input buffer

---
 dxvalue.go   |  2 +-
 jsonparse.go | 24 ++++++++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index ce54870..2a46b44 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -317,7 +317,7 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 			}
 		}
 	}
-	return v.loadResult(err)
+	return v.loadResult(releaseParseData(err))
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
diff --git a/jsonparse.go b/jsonparse.go
index 63d3850..612cff0 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -51,16 +51,32 @@ type ErrorParseJson struct {
 	Type				JsonErrType
 	InvalidIndex		int
 	parseB				[]byte
+	errorData			string	//出错位置的内容
 }
 
 func (err *ErrorParseJson)Error()string  {
+	return fmt.Sprintf("解析在数据%s处发生错误：%s",err.invalidData(),err.Type.String())
+}
+
+func (err *ErrorParseJson)invalidData()string  {
+	if err.parseB == nil{
+		return err.errorData
+	}
 	b := err.parseB
 	l := len(b)
 	if l > err.InvalidIndex + 32{
 		l = err.InvalidIndex + 32
 	}
-	b = b[err.InvalidIndex:l]
-	return fmt.Sprintf("解析在数据%s处发生错误：%s",string(b),err.Type.String())
+	return string(b[err.InvalidIndex:l])
+}
+
+//解析返回之后，错误不能再引用外部传入的数据，外部可能会重用
+func releaseParseData(err error)error  {
+	if jpe,ok := err.(*ErrorParseJson);ok{
+		jpe.errorData = jpe.invalidData()
+		jpe.parseB = nil
+	}
+	return err
 }
 
 //解析从fastjson中的代码修改
@@ -423,7 +439,7 @@ func NewValueFromJson(b []byte,useCache bool,sharebinary bool)(*DxValue,error)
 	b,skiplen := skipWB(b)
 	v, tail, err := parseJsonValue(b,c,sharebinary,0)
 	if err != nil {
-		return nil, err
+		return nil, releaseParseData(err)
 	}
 	b,skiplen = skipWB(tail)
 	if len(b) > 0 {
@@ -432,7 +448,7 @@ func NewValueFromJson(b []byte,useCache bool,sharebinary bool)(*DxValue,error)
 			InvalidIndex: skiplen,
 			parseB:       tail,
 		}
-		return nil, err
+		return nil, releaseParseData(err)
 	}
 	return v,nil
 }
-- 
2.43.0


From d01723064727f685439bc175bc087ba5d9152f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 40/42] fix: Go maps whose keys are string pointers keep all
 their entries

---
 reflect_parse.go | 56 ++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index ae808b5..41c0466 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -387,22 +387,24 @@ func (v *DxValue)SetValue(value interface{})  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
-				if reflectv.Type().Key().Kind() == reflect.String{
+				if isStringKey(reflectv.Type().Key()){
 					v.Reset(VT_Object)
 				}
 				return
 			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
+			if !isStringKey(reflectv.Type().Key()){
 				return
 			}
 			v.Reset(VT_Object)
 			cache := v.ValueCache()
-			for _,kv = range mapkeys{
+			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
+				if kv.Kind() == reflect.Ptr{
+					if kv.IsNil(){
+						continue
+					}
+					kv = kv.Elem()
+				}
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
 				}
@@ -458,6 +460,14 @@ func (v *DxValue)SetValue(value interface{})  {
 	}
 }
 
+//map的键值只支持字符串或者字符串指针
+func isStringKey(keyType reflect.Type)bool  {
+	if keyType.Kind() == reflect.Ptr{
+		keyType = keyType.Elem()
+	}
+	return keyType.Kind() == reflect.String
+}
+
 //取出指定键的节点并且清空原来的内容
 func (v *DxValue)replaceKeyCached(Name string,tp ValueType,cache *ValueCache)*DxValue  {
 	result := v.SetKeyCached(Name,tp,cache)
@@ -656,21 +666,23 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
-				if reflectv.Type().Key().Kind() == reflect.String{
+				if isStringKey(reflectv.Type().Key()){
 					v.replaceKeyCached(Name,VT_Object,cache)
 				}
 				return
 			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
+			if !isStringKey(reflectv.Type().Key()){
 				return
 			}
 			newv := v.replaceKeyCached(Name,VT_Object,cache)
-			for _,kv = range mapkeys{
+			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
+				if kv.Kind() == reflect.Ptr{
+					if kv.IsNil(){
+						continue
+					}
+					kv = kv.Elem()
+				}
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
 				}
@@ -894,21 +906,23 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
-				if reflectv.Type().Key().Kind() == reflect.String{
+				if isStringKey(reflectv.Type().Key()){
 					v.replaceIndexCached(idx,VT_Object,cache)
 				}
 				return
 			}
-			kv := mapkeys[0]
-			if kv.Type().Kind() == reflect.Ptr{
-				kv = kv.Elem()
-			}
-			if kv.Kind() != reflect.String{
+			if !isStringKey(reflectv.Type().Key()){
 				return
 			}
 			newv := v.replaceIndexCached(idx,VT_Object,cache)
-			for _,kv = range mapkeys{
+			for _,kv := range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
+				if kv.Kind() == reflect.Ptr{
+					if kv.IsNil(){
+						continue
+					}
+					kv = kv.Elem()
+				}
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
 				}
-- 
2.43.0


From 133f196bb0ac45958e959512a7d83d3001ed615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 41/42] fix: storing a []byte over an old value leaves nothing
 of its content or extension type

---
 reflect_parse.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 41c0466..6eabb59 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -250,8 +250,10 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *float64:
 		v.SetDouble(*realv)
 	case []byte:
+		v.Reset(VT_Binary) //不保留原来的内容和扩展类型
 		v.SetBinary(realv,true)
 	case *[]byte:
+		v.Reset(VT_Binary)
 		v.SetBinary(*realv,true)
 	case map[string]interface{}:
 		v.Reset(VT_Object)
@@ -555,9 +557,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 	case *float64:
 		v.SetKeyCached(Name,VT_Double,cache).SetDouble(*realv)
 	case []byte:
-		v.SetKeyCached(Name,VT_Binary,cache).SetBinary(realv,true)
+		v.replaceKeyCached(Name,VT_Binary,cache).SetBinary(realv,true)
 	case *[]byte:
-		v.SetKeyCached(Name,VT_Binary,cache).SetBinary(*realv,true)
+		v.replaceKeyCached(Name,VT_Binary,cache).SetBinary(*realv,true)
 	case map[string]interface{}:
 		newv := v.replaceKeyCached(Name,VT_Object,cache)
 		for key,objv := range realv{
@@ -801,9 +803,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 	case *float64:
 		v.SetIndexCached(idx,VT_Double,cache).SetDouble(*realv)
 	case []byte:
-		v.SetIndexCached(idx,VT_Binary,cache).SetBinary(realv,true)
+		v.replaceIndexCached(idx,VT_Binary,cache).SetBinary(realv,true)
 	case *[]byte:
-		v.SetIndexCached(idx,VT_Binary,cache).SetBinary(*realv,true)
+		v.replaceIndexCached(idx,VT_Binary,cache).SetBinary(*realv,true)
 	case map[string]interface{}:
 		newv := v.replaceIndexCached(idx,VT_Object,cache)
 		for key,objv := range realv{
-- 
2.43.0


From 15a61a6680f7968b934c340e1abb09d39dbdc4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 42/42] fix: adding a member does not rename JSON keys that
 contain a percent sign

---
 dxvalue.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 2a46b44..decfaa8 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -152,8 +152,7 @@ func (obj *VObject)UnEscapestrs()  {
 		return
 	}
 	for i := range obj.strkvs {
-		kv := &obj.strkvs[i]
-		kv.K = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(kv.K))
+		obj.strkvs[i].K = obj.keyName(i) //没有转义符的键值保持不变
 	}
 	obj.keysUnescaped = true
 }
-- 
2.43.0

