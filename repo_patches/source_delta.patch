From 39e85e6c564b565c988395ad05ff26c06d2bd12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 01/49] fix: read blobs of 32768 to 65535 bytes (their 2-byte
 length is unsigned)

---
 scouterx/common/netdata/datainputx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 3c6e859..7dff101 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -98,7 +98,7 @@ func (in *DataInputX) ReadBlob() ([]byte, error) {
 	case 255:
 		var v int16
 		v, err = in.ReadInt16()
-		length = int32(v)
+		length = int32(uint16(v))
 	case 254:
 		length, err = in.ReadInt32()
 	case 0:
-- 
2.43.0


From f06fccc3ed953b03b487c9b116479847a1ac8ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 02/49] fix: read blobs and byte arrays in full and reject
 impossible lengths

---
 scouterx/common/netdata/datainputx.go | 45 +++++++++++++++++----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 7dff101..f9e9298 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -8,6 +8,9 @@ import (
 	"strconv"
 )
 
+// maxPreallocSize is the largest length that is allocated before its data has arrived.
+const maxPreallocSize = 64 * 1024
+
 // DataInputX is a byte buffer read stream struct
 type DataInputX struct {
 	offset int32
@@ -106,13 +109,10 @@ func (in *DataInputX) ReadBlob() ([]byte, error) {
 	default:
 		length = int32(baseLen)
 	}
-	in.offset += length
-	val := make([]byte, length)
-	_, err = in.reader.Read(val)
 	if err != nil {
-		val = []byte{}
+		return []byte{}, err
 	}
-	return val, err
+	return in.Read(length)
 }
 
 // ReadDecimal returns number value
@@ -166,24 +166,35 @@ func (in *DataInputX) ReadValue() (Value, error) {
 
 func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	length, err := in.ReadInt32()
-	b, err := in.Read(length)
-	return b, err
-	//val := make([]byte, length)
-	//_, err = in.reader.Read(val)
-	//if err != nil {
-	//	val = []byte{}
-	//}
-	//return val, err
+	if err != nil {
+		return []byte{}, err
+	}
+	return in.Read(length)
 }
 
+// Read reads exactly len bytes, however the underlying reader segments them.
 func (in *DataInputX) Read(len int32) ([]byte, error) {
+	if len < 0 {
+		return []byte{}, errors.New("[scouter] negative length:" + strconv.Itoa(int(len)))
+	}
 	in.offset += len
-	val := make([]byte, len)
-	_, err := in.reader.Read(val)
+	if len <= maxPreallocSize {
+		val := make([]byte, len)
+		if _, err := io.ReadFull(in.reader, val); err != nil {
+			return []byte{}, err
+		}
+		return val, nil
+	}
+	// the length is the peer's claim: allocate as the data arrives
+	var buf bytes.Buffer
+	n, err := io.CopyN(&buf, in.reader, int64(len))
 	if err != nil {
-		val = []byte{}
+		if err == io.EOF && n > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		return []byte{}, err
 	}
-	return val, err
+	return buf.Bytes(), nil
 }
 
 func (in *DataInputX) ReadPack() (Pack, error) {
-- 
2.43.0


From 62c127b66c6cb076bb2b8185b858afb27bfae20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 03/49] fix: read 3- and 5-byte decimals, which collectors
 send, and reject unknown decimal lengths

---
 scouterx/common/netdata/datainputx.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index f9e9298..0fa4838 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -56,6 +56,11 @@ func (in *DataInputX) ReadInt16() (int16, error) {
 	return value, err
 }
 
+func (in *DataInputX) readUInt16() (uint16, error) {
+	v, err := in.ReadInt16()
+	return uint16(v), err
+}
+
 // ReadInt32 returns int16 value
 func (in *DataInputX) ReadInt32() (int32, error) {
 	in.offset += 4
@@ -129,16 +134,32 @@ func (in *DataInputX) ReadDecimal() (int64, error) {
 		var v int16
 		v, err = in.ReadInt16()
 		return int64(v), err
+	case 3:
+		var hi int8
+		var lo uint16
+		if hi, err = in.ReadInt8(); err != nil {
+			return 0, err
+		}
+		lo, err = in.readUInt16()
+		return int64(hi)<<16 | int64(lo), err
 	case 4:
 		var v int32
 		v, err = in.ReadInt32()
 		return int64(v), err
+	case 5:
+		var hi int8
+		var lo int32
+		if hi, err = in.ReadInt8(); err != nil {
+			return 0, err
+		}
+		lo, err = in.ReadInt32()
+		return int64(hi)<<32 | int64(uint32(lo)), err
 	case 8:
 		var v int64
 		v, err = in.ReadInt64()
 		return v, err
 	default:
-		return 0, err
+		return 0, errors.New("[scouter] Not defined decimal length:" + strconv.Itoa(int(len)))
 	}
 }
 
-- 
2.43.0


From f204e9e9cb15306458e807cef857407e84b2bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 04/49] fix: decoding packs and values stops at the first error
 and returns it; unknown pack types are errors

---
 scouterx/common/netdata/datainputx.go         | 12 ++--
 scouterx/common/netdata/listvalue.go          |  6 +-
 scouterx/common/netdata/mappack.go            | 10 ++-
 scouterx/common/netdata/mapvalue.go           | 25 ++++++-
 scouterx/common/netdata/objectpack.go         | 68 ++++++++++++++-----
 .../common/netdata/perfcounter_k8s_pack.go    | 51 ++++++++++----
 scouterx/common/netdata/perfcounterpack.go    | 15 ++--
 7 files changed, 138 insertions(+), 49 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 0fa4838..fc15a40 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -176,9 +176,12 @@ func (in *DataInputX) ReadBoolean() (bool, error) {
 // ReadValue reads value from datainputx
 func (in *DataInputX) ReadValue() (Value, error) {
 	valueType, err := in.ReadInt8()
+	if err != nil {
+		return NewNilValue(), err
+	}
 	value := CreateValue(byte(valueType))
 	if value == nil {
-		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))
+		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.Itoa(int(uint8(valueType))))
 	}
 	readValue, err := value.Read(in)
 	return readValue, err
@@ -224,8 +227,9 @@ func (in *DataInputX) ReadPack() (Pack, error) {
 		return nil, err
 	}
 	pack := CreatePack(byte(packType))
-	pack.Read(in)
-	return pack, err
-
+	if pack == nil {
+		return nil, errors.New("[scouter] Not defined pack type:" + strconv.Itoa(int(uint8(packType))))
+	}
+	return pack.Read(in)
 }
 
diff --git a/scouterx/common/netdata/listvalue.go b/scouterx/common/netdata/listvalue.go
index 62b8f50..6956d15 100644
--- a/scouterx/common/netdata/listvalue.go
+++ b/scouterx/common/netdata/listvalue.go
@@ -138,9 +138,11 @@ func (listValue *ListValue) Write(out *DataOutputX) error {
 // Read function reads value from datainputx
 func (listValue *ListValue) Read(in *DataInputX) (Value, error) {
 	size, err := in.ReadDecimal()
-	for i := int64(0); i < size; i++ {
+	for i := int64(0); i < size && err == nil; i++ {
 		var value Value
-		value , err = in.ReadValue()
+		if value, err = in.ReadValue(); err != nil {
+			break
+		}
 		listValue.Value = append(listValue.Value, value)
 	}
 	return listValue, err
diff --git a/scouterx/common/netdata/mappack.go b/scouterx/common/netdata/mappack.go
index ba96f7c..9cacfa8 100644
--- a/scouterx/common/netdata/mappack.go
+++ b/scouterx/common/netdata/mappack.go
@@ -38,11 +38,15 @@ func (mapPack *MapPack) ContainsKey(key string) bool {
 // Read will reads a value from datainputx
 func (mapPack *MapPack) Read(in *DataInputX) (Pack, error) {
 	count, err := in.ReadDecimal()
-	for i := int64(0); i < count; i++ {
+	for i := int64(0); i < count && err == nil; i++ {
 		var key string
 		var value Value
-		key, err = in.ReadString()
-		value, err = in.ReadValue()
+		if key, err = in.ReadString(); err != nil {
+			break
+		}
+		if value, err = in.ReadValue(); err != nil {
+			break
+		}
 		mapPack.Table[key] = value
 	}
 	return mapPack, err
diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 7282ec2..0e7b540 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -1,6 +1,8 @@
 package netdata
 
 import (
+	"errors"
+
 	valueconstants "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/constants/valueconstant"
 )
 
@@ -36,16 +38,33 @@ func (mapValue *MapValue) ContainesKey(key string) bool {
 // Read will reads a value from datainputx
 func (mapValue *MapValue) Read(in *DataInputX) (Value, error) {
 	size, err := in.ReadDecimal()
-	for i := int64(0); i < size; i++ {
+	for i := int64(0); i < size && err == nil; i++ {
 		var key string
 		var value Value
-		key, err = in.ReadString()
-		value, err = in.ReadValue()
+		if key, err = in.ReadString(); err != nil {
+			break
+		}
+		if value, err = in.ReadValue(); err != nil {
+			break
+		}
 		mapValue.Table[key] = value
 	}
 	return mapValue, err
 }
 
+// readMapValue reads a value that has to be a map
+func readMapValue(in *DataInputX) (*MapValue, error) {
+	value, err := in.ReadValue()
+	if err != nil {
+		return NewMapValue(), err
+	}
+	mapValue, ok := value.(*MapValue)
+	if !ok {
+		return NewMapValue(), errors.New("[scouter] map value expected")
+	}
+	return mapValue, nil
+}
+
 // Write function write a text value to dataoutputx
 func (mapValue *MapValue) Write(out *DataOutputX) error {
 	_, err := out.WriteDecimal(int64(len(mapValue.Table)))
diff --git a/scouterx/common/netdata/objectpack.go b/scouterx/common/netdata/objectpack.go
index 246880c..370eb58 100644
--- a/scouterx/common/netdata/objectpack.go
+++ b/scouterx/common/netdata/objectpack.go
@@ -80,33 +80,65 @@ func (objectPack *ObjectPack) Write(out *DataOutputX) error {
 
 func (objectPack *ObjectPack2) Read(in *DataInputX) (Pack, error){
 	var err error
-	objectPack.SiteID, err = in.ReadString()
-	objectPack.ObjType, err = in.ReadString()
+	if objectPack.SiteID, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.ObjType, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
 	objHash, err := in.ReadDecimal()
+	if err != nil {
+		return objectPack, err
+	}
 	objectPack.ObjHash = int32(objHash)
-	objectPack.ObjName, err = in.ReadString()
-	objectPack.Address, err = in.ReadString()
-	objectPack.Version, err = in.ReadString()
-	objectPack.Alive, err = in.ReadBoolean()
-	objectPack.Wakeup, err = in.ReadDecimal()
-	objectPack.Family, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	if objectPack.ObjName, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Address, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Version, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Alive, err = in.ReadBoolean(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Wakeup, err = in.ReadDecimal(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Family, err = in.ReadInt8(); err != nil {
+		return objectPack, err
+	}
+	objectPack.Tags, err = readMapValue(in)
 
 	return objectPack, err
 }
 func (objectPack *ObjectPack) Read(in *DataInputX) (Pack, error) {
 	var err error
-	objectPack.ObjType, err = in.ReadString()
+	if objectPack.ObjType, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
 	objHash, err := in.ReadDecimal()
+	if err != nil {
+		return objectPack, err
+	}
 	objectPack.ObjHash = int32(objHash)
-	objectPack.ObjName, err = in.ReadString()
-	objectPack.Address, err = in.ReadString()
-	objectPack.Version, err = in.ReadString()
-	objectPack.Alive, err = in.ReadBoolean()
-	objectPack.Wakeup, err = in.ReadDecimal()
-	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	if objectPack.ObjName, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Address, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Version, err = in.ReadString(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Alive, err = in.ReadBoolean(); err != nil {
+		return objectPack, err
+	}
+	if objectPack.Wakeup, err = in.ReadDecimal(); err != nil {
+		return objectPack, err
+	}
+	objectPack.Tags, err = readMapValue(in)
 
 	return objectPack, err
 }
diff --git a/scouterx/common/netdata/perfcounter_k8s_pack.go b/scouterx/common/netdata/perfcounter_k8s_pack.go
index c1718da..2fb6470 100644
--- a/scouterx/common/netdata/perfcounter_k8s_pack.go
+++ b/scouterx/common/netdata/perfcounter_k8s_pack.go
@@ -49,20 +49,43 @@ func (pack *PerfCounterK8SPack) Write(out *DataOutputX) error {
 // Read will read PerfCounterPack from datainputx
 func (pack *PerfCounterK8SPack) Read(in *DataInputX) (Pack, error) {
 	var err error
-	pack.Time, err = in.ReadInt64()
-	pack.SiteID, err = in.ReadString()
-	pack.Cluster, err = in.ReadString()
-	pack.NameSpace, err = in.ReadString()
-	pack.NodeName, err = in.ReadString()
-	pack.DaemonSetName, err = in.ReadString()
-	pack.DeploymentName, err = in.ReadString()
-	pack.PodName, err = in.ReadString()
-	pack.ContainerName, err = in.ReadString()
-	pack.ObjName, err = in.ReadString()
-	pack.Timetype, err = in.ReadInt8()
-	pack.MetricLevel, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	if pack.Time, err = in.ReadInt64(); err != nil {
+		return pack, err
+	}
+	if pack.SiteID, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.Cluster, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.NameSpace, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.NodeName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.DaemonSetName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.DeploymentName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.PodName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.ContainerName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.ObjName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.Timetype, err = in.ReadInt8(); err != nil {
+		return pack, err
+	}
+	if pack.MetricLevel, err = in.ReadInt8(); err != nil {
+		return pack, err
+	}
+	pack.Data, err = readMapValue(in)
 	return pack, err
 }
 
diff --git a/scouterx/common/netdata/perfcounterpack.go b/scouterx/common/netdata/perfcounterpack.go
index 49145e7..66ac0de 100644
--- a/scouterx/common/netdata/perfcounterpack.go
+++ b/scouterx/common/netdata/perfcounterpack.go
@@ -34,11 +34,16 @@ func (pack *PerfCounterPack) Write(out *DataOutputX) error {
 // Read will read PerfCounterPack from datainputx
 func (pack *PerfCounterPack) Read(in *DataInputX) (Pack, error) {
 	var err error
-	pack.Time, err = in.ReadInt64()
-	pack.ObjName, err = in.ReadString()
-	pack.Timetype, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	if pack.Time, err = in.ReadInt64(); err != nil {
+		return pack, err
+	}
+	if pack.ObjName, err = in.ReadString(); err != nil {
+		return pack, err
+	}
+	if pack.Timetype, err = in.ReadInt8(); err != nil {
+		return pack, err
+	}
+	pack.Data, err = readMapValue(in)
 	return pack, err
 }
 
-- 
2.43.0


From 745e563f3bf71b3146d1bc442a76fdfe73bb368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 05/49] fix: limit the nesting depth of decoded values, deep
 nesting overflowed the stack

---
 scouterx/common/netdata/datainputx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index fc15a40..a80850d 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -11,9 +11,13 @@ import (
 // maxPreallocSize is the largest length that is allocated before its data has arrived.
 const maxPreallocSize = 64 * 1024
 
+// maxValueDepth is the deepest nesting of lists and maps that is accepted.
+const maxValueDepth = 1000
+
 // DataInputX is a byte buffer read stream struct
 type DataInputX struct {
 	offset int32
+	depth  int
 	reader io.Reader
 }
 
@@ -183,7 +187,12 @@ func (in *DataInputX) ReadValue() (Value, error) {
 	if value == nil {
 		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.Itoa(int(uint8(valueType))))
 	}
+	if in.depth >= maxValueDepth {
+		return NewNilValue(), errors.New("[scouter] value is nested too deeply")
+	}
+	in.depth++
 	readValue, err := value.Read(in)
+	in.depth--
 	return readValue, err
 
 }
-- 
2.43.0


From b7ce97a2bf98e3b4d258e86290b20ef14b6168f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 06/49] fix: decode IPv4 address values as addresses, not blobs

---
 scouterx/common/netdata/valuecreator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/valuecreator.go b/scouterx/common/netdata/valuecreator.go
index 7328182..55a6adb 100644
--- a/scouterx/common/netdata/valuecreator.go
+++ b/scouterx/common/netdata/valuecreator.go
@@ -24,7 +24,7 @@ func CreateValue(valueType byte) Value {
 	case valueconstants.BLOB:
 		return NewBlobEmptyValue()
 	case valueconstants.IP4ADDR:
-		return NewBlobEmptyValue()
+		return NewIp4EmptyValue()
 	case valueconstants.LIST:
 		return NewListValue()
 	case valueconstants.MAP:
-- 
2.43.0


From db77767d4a5c517e6f27f16c3e6328887df26990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 07/49] fix: encode dump steps with their own step type

---
 scouterx/common/netdata/dumpstep.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/dumpstep.go b/scouterx/common/netdata/dumpstep.go
index fcfd1e5..512b716 100644
--- a/scouterx/common/netdata/dumpstep.go
+++ b/scouterx/common/netdata/dumpstep.go
@@ -17,7 +17,7 @@ func NewDumpStep() *DumpStep {
 }
 
 func (s *DumpStep) GetStepType() byte {
-	return METHOD
+	return DUMP
 }
 
 func (s *DumpStep) Write(out *DataOutputX) error {
-- 
2.43.0


From 896771ad45725dbedec3ed7550e5f78c9fb5687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 08/49] fix: store int, int32 and uint32 values put into maps
 and Kubernetes counter packs instead of dropping them

---
 scouterx/common/netdata/mapvalue.go             | 8 +++++++-
 scouterx/common/netdata/perfcounter_k8s_pack.go | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 0e7b540..a2ba1c3 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -82,9 +82,15 @@ func (mapValue *MapValue) GetValueType() byte {
 
 // Put add string value to map
 func (mapValue *MapValue) Put(key string, any interface{}) {
-	switch any.(type) {
+	switch v := any.(type) {
 	case string:
 		mapValue.Table[key] = NewTextValue(any.(string))
+	case int:
+		mapValue.Table[key] = NewDecimalValue(int64(v))
+	case int32:
+		mapValue.Table[key] = NewDecimalValue(int64(v))
+	case uint32:
+		mapValue.Table[key] = NewDecimalValue(int64(v))
 	case int64:
 		mapValue.Table[key] = NewDecimalValue(any.(int64))
 	case bool:
diff --git a/scouterx/common/netdata/perfcounter_k8s_pack.go b/scouterx/common/netdata/perfcounter_k8s_pack.go
index 2fb6470..13f48ba 100644
--- a/scouterx/common/netdata/perfcounter_k8s_pack.go
+++ b/scouterx/common/netdata/perfcounter_k8s_pack.go
@@ -106,7 +106,8 @@ func (pack *PerfCounterK8SPack) Put(key string, any interface{}) {
 		pack.Data.Put(key, NewTextValue(v))
 	case bool:
 		pack.Data.Put(key, NewBooleanValue(v))
-
+	default:
+		pack.Data.Put(key, any)
 	}
 
 }
-- 
2.43.0


From 3c9e1caac697f1a5267cc8af77636eddcc9903ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 09/49] fix: read back Kubernetes counter packs

---
 scouterx/common/netdata/packcreator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scouterx/common/netdata/packcreator.go b/scouterx/common/netdata/packcreator.go
index f034776..4617634 100644
--- a/scouterx/common/netdata/packcreator.go
+++ b/scouterx/common/netdata/packcreator.go
@@ -13,6 +13,8 @@ func CreatePack(packType byte) Pack {
 		return NewTextPack()
 	case packconstants.PERFCOUNTER:
 		return NewPerfCounterPack()
+	case packconstants.PERFCOUNTER_K8S:
+		return NewPerfCounterK8SPack()
 	case packconstants.OBJECT:
 		return NewObjectPack2()
 	case packconstants.ALERT:
-- 
2.43.0


From 1c5de7c5facfce202bb5a1fd2c566018f28067bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 10/49] fix: decode text and alert packs instead of leaving
 their bytes unread without an error

---
 scouterx/common/netdata/alertpack.go | 25 +++++++++++++++++++++++--
 scouterx/common/netdata/textpack.go  | 12 ++++++++++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/netdata/alertpack.go b/scouterx/common/netdata/alertpack.go
index c86a3de..9b470a7 100644
--- a/scouterx/common/netdata/alertpack.go
+++ b/scouterx/common/netdata/alertpack.go
@@ -39,8 +39,29 @@ func (p *AlertPack) Write(out *DataOutputX) error {
 }
 
 func (p *AlertPack) Read(in *DataInputX) (Pack, error) {
-	//TODO not yet implemented
-	return p, nil
+	var err error
+	if p.Time, err = in.ReadInt64(); err != nil {
+		return p, err
+	}
+	level, err := in.ReadUInt8()
+	if err != nil {
+		return p, err
+	}
+	p.Level = AlertLevel(level)
+	if p.ObjType, err = in.ReadString(); err != nil {
+		return p, err
+	}
+	if p.ObjHash, err = in.ReadInt32(); err != nil {
+		return p, err
+	}
+	if p.Title, err = in.ReadString(); err != nil {
+		return p, err
+	}
+	if p.Message, err = in.ReadString(); err != nil {
+		return p, err
+	}
+	p.Tags, err = readMapValue(in)
+	return p, err
 }
 
 func (pack *AlertPack) ToString() string {
diff --git a/scouterx/common/netdata/textpack.go b/scouterx/common/netdata/textpack.go
index 961c907..8b1c5a0 100644
--- a/scouterx/common/netdata/textpack.go
+++ b/scouterx/common/netdata/textpack.go
@@ -27,8 +27,16 @@ func (p *TextPack) Write(out *DataOutputX) error {
 }
 
 func (p *TextPack) Read(in *DataInputX) (Pack, error) {
-	//TODO not yet implemented
-	return p, nil
+	xtype, err := in.ReadString()
+	if err != nil {
+		return p, err
+	}
+	p.Xtype = texttype.TextType(xtype)
+	if p.Hash, err = in.ReadInt32(); err != nil {
+		return p, err
+	}
+	p.Text, err = in.ReadString()
+	return p, err
 }
 
 func (pack *TextPack) ToString() string {
-- 
2.43.0


From c8ca85f2d0bceffac2b5c0c5b06b1c19f2a5fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 11/49] fix: compile the patterns of a comma separated matcher,
 wildcards in it never matched

---
 scouterx/common/util/strmatch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index 5b6ebfd..a1f98f1 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -122,7 +122,7 @@ func NewCommaSeparatedChainedStrMatcher(patterns string) CommaSeparatedChainedSt
 	matcher := CommaSeparatedChainedStrMatcher{}
 	arrPatterns := strings.Split(patterns, ",")
 	for _, pattern := range arrPatterns {
-		matcher.strMatches = append(matcher.strMatches, StrMatch{Pattern: pattern})
+		matcher.strMatches = append(matcher.strMatches, NewStrMatch(pattern))
 	}
 	return matcher
 }
-- 
2.43.0


From 81a42aceab245c677586f775dee76da64dfd77e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 12/49] fix: parts of a wildcard pattern match in order and
 without overlap

---
 scouterx/common/util/strmatch.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index a1f98f1..0ce4ec6 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -93,9 +93,9 @@ func (m *StrMatch) include(target string) bool {
 	case c_STR:
 		return strings.HasPrefix(target, m.start)
 	case c_STR_MID:
-		return strings.HasPrefix(target, m.start) && strings.Contains(target, m.mid)
+		return strings.HasPrefix(target, m.start) && strings.Contains(target[len(m.start):], m.mid)
 	case c_STR_END:
-		return strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
+		return len(target) >= len(m.start)+len(m.end) && strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
 	case c_MID:
 		return strings.Contains(target, m.mid)
 	case c_MID_MID:
@@ -103,9 +103,9 @@ func (m *StrMatch) include(target string) bool {
 		if x < 0 {
 			return false
 		}
-		return strings.Contains(target, m.mid2) && strings.HasSuffix(target, m.end)
+		return strings.Contains(target[x+len(m.mid):], m.mid2)
 	case c_MID_END:
-		return strings.Contains(target, m.mid) && strings.HasSuffix(target, m.end)
+		return strings.HasSuffix(target, m.end) && strings.Contains(target[:len(target)-len(m.end)], m.mid)
 	case c_END:
 		return strings.HasSuffix(target, m.end)
 	default:
-- 
2.43.0


From dfa22183b0d62b9e9373ae4f9733e51cc6d28c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 13/49] fix: lra Empty took its read lock twice and could
 deadlock with a waiting writer

---
 scouterx/common/structure/lra/lra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/structure/lra/lra.go b/scouterx/common/structure/lra/lra.go
index 317681d..bbc5619 100644
--- a/scouterx/common/structure/lra/lra.go
+++ b/scouterx/common/structure/lra/lra.go
@@ -71,7 +71,7 @@ func (c *Cache) Contains(key interface{}) bool {
 func (c *Cache) Empty() bool {
 	lock.RLock()
 	defer lock.RUnlock()
-	return c.Size() == 0
+	return c.lst.Len() == 0
 }
 
 
-- 
2.43.0


From 69335e39672c127505cd45b7e68f6dfede77b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 14/49] fix: hold the lock while reading the caches' sizes and
 values, concurrent adds crashed the process

---
 scouterx/common/structure/cachemap/cachemap.go   | 14 +++++++++-----
 scouterx/common/structure/cachemap2/cachemap2.go | 16 ++++++++++------
 scouterx/common/structure/cacheset/cacheset.go   |  2 ++
 scouterx/common/structure/lra/lra.go             |  4 +---
 4 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/scouterx/common/structure/cachemap/cachemap.go b/scouterx/common/structure/cachemap/cachemap.go
index fad02b2..addb302 100644
--- a/scouterx/common/structure/cachemap/cachemap.go
+++ b/scouterx/common/structure/cachemap/cachemap.go
@@ -14,15 +14,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	for _, v := range m.table.Values() {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
@@ -90,10 +88,16 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
+	return m.size()
+}
+
+func (m *CacheMap) size() int {
 	return m.table.Size()
 }
 
@@ -104,5 +108,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.table.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index fce8574..98a3b9f 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -18,15 +18,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	for _, v := range m.table {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
@@ -41,7 +39,7 @@ func New(maxSize int) *CacheMap {
 	once.Do(func() {
 		go func() {
 			for {
-				if m.ordering.Size() > m.maxSize/2 {
+				if m.Size() > m.maxSize/2 {
 					time.Sleep(500 * time.Millisecond)
 					//TODO
 				} else {
@@ -105,10 +103,16 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
+	return m.size()
+}
+
+func (m *CacheMap) size() int {
 	return m.ordering.Size()
 }
 
@@ -121,5 +125,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.ordering.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cacheset/cacheset.go b/scouterx/common/structure/cacheset/cacheset.go
index 607aebb..af0669a 100644
--- a/scouterx/common/structure/cacheset/cacheset.go
+++ b/scouterx/common/structure/cacheset/cacheset.go
@@ -62,6 +62,8 @@ func (set *CacheSet) Empty() bool {
 }
 
 func (set *CacheSet) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return set.table.Size()
 }
 
diff --git a/scouterx/common/structure/lra/lra.go b/scouterx/common/structure/lra/lra.go
index bbc5619..da16e74 100644
--- a/scouterx/common/structure/lra/lra.go
+++ b/scouterx/common/structure/lra/lra.go
@@ -119,18 +119,16 @@ func (c *Cache) Clear() {
 }
 
 func (c *Cache) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	for _, e := range c.table {
-		lock.RUnlock()
 		if e != nil {
 			kv := e.Value.(*entry)
 			if kv != nil && kv.value != nil {
 				l = append(l, kv.value)
 			}
 		}
-		lock.RLock()
 	}
 	return l
 }
-- 
2.43.0


From 3f4ecbb15305bfdf9f806e4e2c8591bec697e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 15/49] fix: cachemap2 Remove forgets the key's place in the
 eviction order

---
 scouterx/common/structure/cachemap2/cachemap2.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index 98a3b9f..f154e44 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -66,12 +66,11 @@ func (m *CacheMap) Add(key interface{}, item interface{}) {
 func (m *CacheMap) Remove(key interface{}) {
 	lock.Lock()
 	defer lock.Unlock()
-	delete(m.table, key)
-	//index, contains := m.orderPos[key]
-	//if contains {
-	//	m.ordering.Remove(index)
-	//	delete(m.orderPos, key)
-	//}
+	if _, contains := m.table[key]; contains {
+		delete(m.table, key)
+		delete(m.orderPos, key)
+		m.ordering.Remove(m.ordering.IndexOf(key))
+	}
 }
 
 func (m *CacheMap) removeExceeded() {
-- 
2.43.0


From f85ee0743abe9c36e62f49938947907472f46a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 16/49] fix: text form of the smallest 64-bit id had a minus
 sign in it

---
 scouterx/common/util/hexautil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/hexautil.go b/scouterx/common/util/hexautil.go
index ee5a301..553a48d 100644
--- a/scouterx/common/util/hexautil.go
+++ b/scouterx/common/util/hexautil.go
@@ -8,7 +8,7 @@ const xminus = "z"
 func IntToXlogString32(num int64) string {
 	minus := num < 0
 	if minus {
-		return xminus + strconv.FormatInt(-num, 32)
+		return xminus + strconv.FormatUint(uint64(-num), 32)
 	} else {
 		return xplus + strconv.FormatInt(num, 32)
 	}
-- 
2.43.0


From 292f9ec041d2c623c02f32ff86ee8e3512d2915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 17/49] fix: agents started in the same second generated the
 same transaction ids

---
 scouterx/common/util/keygen/keygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/keygen/keygen.go b/scouterx/common/util/keygen/keygen.go
index be95773..d6ca825 100644
--- a/scouterx/common/util/keygen/keygen.go
+++ b/scouterx/common/util/keygen/keygen.go
@@ -22,7 +22,7 @@ func getInstance() *KeyGen {
 	once.Do(
 		func() {
 			keygen = new(KeyGen)
-			keygen.random = rand.New(rand.NewSource(time.Now().Unix()))
+			keygen.random = rand.New(rand.NewSource(time.Now().UnixNano()))
 
 		})
 	return keygen
-- 
2.43.0


From de4fd2fc2574dc0987f919e8abbfba1ce3e200b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 18/49] fix: meters read their buckets under the lock that
 guards recording

---
 scouterx/counter/serviceMetering.go | 2 ++
 scouterx/counter/valueMetering.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/scouterx/counter/serviceMetering.go b/scouterx/counter/serviceMetering.go
index c17bed1..c3bc3f0 100644
--- a/scouterx/counter/serviceMetering.go
+++ b/scouterx/counter/serviceMetering.go
@@ -59,6 +59,8 @@ func (g *ServiceMetering) Add(elapsed int, err bool) {
 }
 
 func (g *ServiceMetering) GetAllCounter(period int) *ServiceCounter {
+	g.Lock()
+	defer g.Unlock()
 	var countSum int
 	var elapsedSum int
 	var errorSum int
diff --git a/scouterx/counter/valueMetering.go b/scouterx/counter/valueMetering.go
index 4af8c9c..d647939 100644
--- a/scouterx/counter/valueMetering.go
+++ b/scouterx/counter/valueMetering.go
@@ -43,6 +43,8 @@ func (g *ValueMetering) Add(value float64) {
 }
 
 func (g *ValueMetering) GetAllCounter(period int) *ValueMetric {
+	g.Lock()
+	defer g.Unlock()
 	var sum float64
 	var count int32
 	var avg float64
-- 
2.43.0


From b40d16b4411e1ccea57f75703d91c1020cda0d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 19/49] fix: environment values containing '=' were cut off and
 an entry without '=' crashed the process

---
 scouterx/conf/configure.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index df1d3e1..002ae6d 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -227,8 +227,10 @@ func (conf *Configure) Refresh() {
 	if info == nil || info.ModTime().After(conf.lastModified) {
 		props := properties.NewProperties()
 		for _, e := range os.Environ() {
-			pair := strings.Split(e, "=")
-			props.Set(pair[0], pair[1])
+			pair := strings.SplitN(e, "=", 2)
+			if len(pair) == 2 {
+				props.Set(pair[0], pair[1])
+			}
 		}
 
 		fileProps, err := properties.LoadFile(filePath, properties.UTF8)
-- 
2.43.0


From f338b72bebfd20ca34666fb2ff5d9444caeaf5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 20/49] fix: unusable queue, datagram and profile sizes crashed
 the process, treat them as the defaults

---
 scouterx/conf/configure.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 002ae6d..ddd1156 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -303,6 +303,25 @@ func intOf(props *properties.Properties, key string, defaultValue int, desc stri
 	return value
 }
 
+// sizeOf reads a size. One which cannot be used (not positive, or beyond max) is treated as the default.
+func sizeOf(props *properties.Properties, key string, defaultValue int, max int, desc string) int {
+	value := intOf(props, key, defaultValue, desc)
+	if value > 0 && value <= max {
+		return value
+	}
+
+	descSync.Lock()
+	defer descSync.Unlock()
+	descMap.Put(key, ConfigureDesc{
+		Key:          key,
+		Value:        strconv.Itoa(defaultValue),
+		DefaultValue: strconv.Itoa(defaultValue),
+		Desc:         desc,
+		ValueType:    vtNum,
+	})
+	return defaultValue
+}
+
 func stringOf(props *properties.Properties, key string, defaultValue string, desc string) string {
 	descSync.Lock()
 	defer descSync.Unlock()
@@ -340,14 +359,14 @@ func (conf *Configure) addToConf(props *properties.Properties) {
 	conf._trace = props.GetBool("_trace", false)
 
 	conf.TraceObjSend = boolOf(props, "trace_obj_send", false, "")
-	conf.SendQueueSize = intOf(props, "send_queue_size", 3000, "")
+	conf.SendQueueSize = sizeOf(props, "send_queue_size", 3000, 1000000, "")
 
 	conf.NetCollectorIP = stringOf(props, "net_collector_ip", "127.0.0.1", "")
 	conf.NetCollectorUDPPort = intOf(props, "net_collector_udp_port", 6100, "")
 	conf.NetCollectorTCPPort = intOf(props, "net_collector_tcp_port", 6100, "")
 	conf.NetCollectorTcpSoTimeoutMs = intOf(props, "net_collector_tcp_so_timeout_ms", 60000, "")
 	conf.NetCollectorTcpConnectionTimeoutMs = intOf(props, "net_collector_tcp_connection_timeout_ms", 3000, "")
-	conf.UDPMaxBytes = intOf(props, "udp_max_bytes", 60000, "")
+	conf.UDPMaxBytes = sizeOf(props, "udp_max_bytes", 60000, 65000, "")
 
 	conf.StuckServiceBaseTimeMs = intOf(props, "stuck_service_base_time_ms", 300000, "")
 	conf.StuckServiceRemoveEnabled = boolOf(props, "stuck_service_remove_enabled", true, "")
@@ -356,8 +375,8 @@ func (conf *Configure) addToConf(props *properties.Properties) {
 	conf.TraceActiveserviceYellowTime = intOf(props, "trace_activeservice_yellow_time", 3000, "")
 	conf.TraceActiveserviceRedTime = intOf(props, "trace_activeservice_red_time", 8000, "")
 
-	conf.ProfileStepMaxKeepInMemoryCount = intOf(props, "profile_step_max_keep_in_memory_count", 2048, "")
-	conf.ProfileStepMaxCount = intOf(props, "profile_step_max_count", 1024, "")
+	conf.ProfileStepMaxKeepInMemoryCount = sizeOf(props, "profile_step_max_keep_in_memory_count", 2048, 1000000, "")
+	conf.ProfileStepMaxCount = sizeOf(props, "profile_step_max_count", 1024, 1000000, "")
 
 	conf.ProfileHttpQuerystringEnabled = boolOf(props, "profile_http_querystring_enabled", false, "")
 	conf.ProfileHttpHeaderEnabled = boolOf(props, "profile_http_header_enabled", false, "")
-- 
2.43.0


From e6e2258edcc6234265ded5c13a03a924c26c09b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 21/49] fix: an empty entry in the configuration file hid the
 environment's value

---
 scouterx/conf/configure.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index ddd1156..9bdc836 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -245,6 +245,11 @@ func (conf *Configure) Refresh() {
 			}
 		}
 		if fileProps != nil {
+			for k, v := range fileProps.Map() {
+				if v == "" {
+					fileProps.Delete(k)
+				}
+			}
 			props.Merge(fileProps)
 		}
 		props = props.FilterFunc(func (k, v string) bool {
-- 
2.43.0


From 2e4d20dbfbc01c8ed04f4cafa25671f257e8935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 22/49] fix: a log file that cannot be opened ended the host
 process

---
 scouterx/common/logger/logger.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scouterx/common/logger/logger.go b/scouterx/common/logger/logger.go
index 1be4dac..b6b1ef9 100644
--- a/scouterx/common/logger/logger.go
+++ b/scouterx/common/logger/logger.go
@@ -3,6 +3,7 @@ package logger
 import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"path/filepath"
@@ -14,9 +15,12 @@ func Init() {
 	logPath := filepath.Join(p, "logs")
 	util.MakeDir(logPath)
 	fileName := filepath.Join(logPath, "scouter.log")
+	var logfile io.Writer
 	logfile, e := os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
 	if e != nil {
-		log.Fatalln("cannot open log file")
+		// the agent must not end its host; go on without the file
+		log.Println("cannot open log file")
+		logfile = ioutil.Discard
 	}
 
 	Trace = log.New(io.MultiWriter(logfile, os.Stdout), "trace:", log.Ldate|log.Ltime|log.Lshortfile)
-- 
2.43.0


From 075f11f531c94b55f11b563ae293f7bc9d3a3b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 23/49] fix: trace_obj_send with an unusable collector address
 crashed the process

---
 scouterx/netio/udpsender/udpsender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 2c7b948..d65997e 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -86,7 +86,7 @@ func (udpSender *UDPSender) AddBuffer(buffer []byte) {
 
 func (udpSender *UDPSender) SendPackDirect(pack netdata.Pack) {
 	if ac.TraceObjSend {
-		if p, ok := pack.(*netdata.ObjectPack); ok {
+		if p, ok := pack.(*netdata.ObjectPack); ok && udpSender.udpClient.Conn != nil {
 			logger.Info.Printf("[scouter] SendPackDirect[ObjPack], to:%s, pack:%s", udpSender.udpClient.Conn.RemoteAddr(), p.ToString())
 		}
 	}
-- 
2.43.0


From beb6825084a00789518192de2543f683b8ef979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 24/49] fix: a text dropped because the send queue is full is
 announced at its next use

---
 scouterx/netio/dataproxy.go           | 55 ++++++++++++++++-----------
 scouterx/netio/udpsender/udpsender.go |  5 ++-
 2 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index 7782a09..db9aab4 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -57,8 +57,9 @@ func SendServiceName(name string) int32 {
 	if serviceNameSent.Contains(hash) {
 		return hash
 	}
-	serviceNameSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.SERVICE, hash, name})
+	if udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.SERVICE, hash, name}) {
+		serviceNameSent.AddKey(hash)
+	}
 	return hash
 }
 
@@ -70,8 +71,9 @@ func SendHashedMessage(name string) int32 {
 	if hashMessageSent.Contains(hash) {
 		return hash
 	}
-	hashMessageSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.HASH_MSG, hash, name})
+	if udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.HASH_MSG, hash, name}) {
+		hashMessageSent.AddKey(hash)
+	}
 	return hash
 }
 
@@ -83,8 +85,9 @@ func SendObjName(name string) int32 {
 	if objNameSent.Contains(hash) {
 		return hash
 	}
-	objNameSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.OBJECT, hash, name})
+	if udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.OBJECT, hash, name}) {
+		objNameSent.AddKey(hash)
+	}
 	return hash
 }
 
@@ -96,8 +99,9 @@ func SendReferer(name string) int32 {
 	if refererSent.Contains(hash) {
 		return hash
 	}
-	refererSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.REFERER, hash, name})
+	if udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.REFERER, hash, name}) {
+		refererSent.AddKey(hash)
+	}
 	return hash
 }
 
@@ -109,8 +113,9 @@ func SendUserAgent(name string) int32 {
 	if userAgentSent.Contains(hash) {
 		return hash
 	}
-	userAgentSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.USER_AGENT, hash, name})
+	if udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.USER_AGENT, hash, name}) {
+		userAgentSent.AddKey(hash)
+	}
 	return hash
 }
 
@@ -122,8 +127,9 @@ func SendMethod(name string) int32 {
 	if methodSent.Contains(hash) {
 		return hash
 	}
-	methodSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.METHOD, hash, name})
+	if udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.METHOD, hash, name}) {
+		methodSent.AddKey(hash)
+	}
 	return hash
 }
 
@@ -135,8 +141,9 @@ func SendApicall(name string) int32 {
 	if apicallSent.Contains(hash) {
 		return hash
 	}
-	apicallSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.APICALL, hash, name})
+	if udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.APICALL, hash, name}) {
+		apicallSent.AddKey(hash)
+	}
 	return hash
 }
 
@@ -148,8 +155,9 @@ func SendError(name string) int32 {
 	if errorSent.Contains(hash) {
 		return hash
 	}
-	errorSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.ERROR, hash, name})
+	if udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.ERROR, hash, name}) {
+		errorSent.AddKey(hash)
+	}
 	return hash
 }
 
@@ -175,8 +183,9 @@ func SendLogin(name string) int32 {
 	if loginSent.Contains(hash) {
 		return hash
 	}
-	loginSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.LOGIN, hash, name})
+	if udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.LOGIN, hash, name}) {
+		loginSent.AddKey(hash)
+	}
 	return hash
 }
 
@@ -188,8 +197,9 @@ func SendDesc(name string) int32 {
 	if descSent.Contains(hash) {
 		return hash
 	}
-	descSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.DESC, hash, name})
+	if udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.DESC, hash, name}) {
+		descSent.AddKey(hash)
+	}
 	return hash
 }
 
@@ -201,8 +211,9 @@ func SendStackElement(name string) int32 {
 	if stackElementSent.Contains(hash) {
 		return hash
 	}
-	stackElementSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.STACK_ELEMENT, hash, name})
+	if udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.STACK_ELEMENT, hash, name}) {
+		stackElementSent.AddKey(hash)
+	}
 	return hash
 }
 
diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index d65997e..14d89f4 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -66,13 +66,16 @@ func reloadUdpSender() {
 	}
 }
 
-func (udpSender *UDPSender) AddPack(pack netdata.Pack) {
+// AddPack queues a pack, and reports whether the queue had room for it.
+func (udpSender *UDPSender) AddPack(pack netdata.Pack) bool {
 	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)
 	bytes := writePack.Bytes()
 	select {
 	case udpSender.udpChannel <- bytes:
+		return true
 	default:
 		logger.Warning.Println("udp channel is full.")
+		return false
 	}
 }
 
-- 
2.43.0


From f23bc8c41726ceb636a9f9a9a6b316bece6090c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 25/49] fix: a service ended concurrently sends only one xlog

---
 scouterx/netio/tracecontext.go | 14 ++++++++++++++
 scouterx/strace/tracemain.go   |  3 +--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/tracecontext.go b/scouterx/netio/tracecontext.go
index 28726fa..e7a4bbc 100644
--- a/scouterx/netio/tracecontext.go
+++ b/scouterx/netio/tracecontext.go
@@ -5,6 +5,7 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util/keygen"
 	"strconv"
+	"sync"
 	"time"
 )
 
@@ -95,6 +96,19 @@ func NewNoopTraceContext() *TraceContext {
 	return context
 }
 
+var closeLock sync.Mutex
+
+// Close marks the service as ended, and reports whether this call was the one which ended it.
+func (tctx *TraceContext) Close() bool {
+	closeLock.Lock()
+	defer closeLock.Unlock()
+	if tctx.Closed {
+		return false
+	}
+	tctx.Closed = true
+	return true
+}
+
 func (tctx (TraceContext)) ToXlog(discardType netdata.XlogDiscardType, elapsed int32) *netdata.XlogPack {
 	xlog := netdata.NewXlogPack()
 	xlog.Elapsed = elapsed
diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index aee471c..7bbe847 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -371,10 +371,9 @@ func endStuckServiceForcibly(tctx *netio.TraceContext) {
 }
 
 func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
-	if tctx.Closed {
+	if !tctx.Close() {
 		return
 	}
-	tctx.Closed = true
 
 	tctx.ServiceHash = netio.SendServiceName(tctx.ServiceName)
 	tctxmanager.End(tctx)
-- 
2.43.0


From 1782baa2917832f58491ac7ce4054ace29fa57c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 26/49] fix: steps added after a service's end sent its last
 steps again

---
 scouterx/netio/profilecollector.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scouterx/netio/profilecollector.go b/scouterx/netio/profilecollector.go
index 3aaff6d..3a52743 100644
--- a/scouterx/netio/profilecollector.go
+++ b/scouterx/netio/profilecollector.go
@@ -14,6 +14,7 @@ type ProfileCollector struct {
 	doingDumpStepJob bool
 	currentLevel int32
 	parentLevel int32
+	closed bool
 }
 
 func NewProfileCollector(tctx *TraceContext) *ProfileCollector {
@@ -47,6 +48,9 @@ func (c *ProfileCollector) Add(ss netdata.Step) {
 
 func (c *ProfileCollector) Process(ss netdata.Step) {
 	c.checkDumpStep()
+	if c.closed {
+		return
+	}
 	c.steps[c.pos] = ss
 	c.pos++
 	if c.pos >= len(c.steps) {
@@ -59,6 +63,7 @@ func (c *ProfileCollector) Process(ss netdata.Step) {
 
 func (c *ProfileCollector) Close(ok bool) {
 	c.checkDumpStep()
+	c.closed = true
 	if c.pos > 0 && ok {
 		SendProfile(c.steps[0 : c.pos], c.tctx)
 	}
-- 
2.43.0


From 19aee47e77ba88478c60063cf318d2788f9e2faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 27/49] fix: the xlog counts the steps of the service's last
 profile record

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 7bbe847..f63c1f9 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -380,10 +380,10 @@ func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
 
 	elapsed := util.MillisToNow(tctx.StartTime)
 	discardType := findXLogDiscard(tctx, elapsed)
-	xlog := tctx.ToXlog(discardType, elapsed)
 
 	writeProfile := discardType == netdata.XLOG_DISCARD_NONE //TODO consequence sampling
 	tctx.Profile.Close(writeProfile)
+	xlog := tctx.ToXlog(discardType, elapsed)
 
 	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)
 	//TODO meteringInteraction
-- 
2.43.0


From 19eec60013d2d557b7ce29888d1d76d1ff8ecadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 28/49] fix: xlog_discard_service_show_error=false hides the
 errors of discarded services

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index f63c1f9..7be89d1 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -406,7 +406,7 @@ func findXLogDiscard(tctx *netio.TraceContext, elapsed int32) netdata.XlogDiscar
 	//check xlog discard pattern
 	if GetXlogSampler().isDiscardServicePattern(tctx.ServiceName) {
 		discardMode = netdata.XLOG_DISCARD_ALL_FORCE
-		if tctx.Error != 0 {
+		if tctx.Error != 0 && ac.XlogDiscardServiceShowError {
 			discardMode = netdata.XLOG_DISCARD_NONE
 		}
 	}
-- 
2.43.0


From 6de9bc319812de6db62a4d84ebd7b6fdc62c2c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 29/49] fix: looking up the trace context of a nil context
 panicked

---
 scouterx/strace/tctxmanager/tctxmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/strace/tctxmanager/tctxmanager.go b/scouterx/strace/tctxmanager/tctxmanager.go
index dc046b8..abb8d65 100644
--- a/scouterx/strace/tctxmanager/tctxmanager.go
+++ b/scouterx/strace/tctxmanager/tctxmanager.go
@@ -37,6 +37,9 @@ func GetTraceContextFallbackNoop(ctx context.Context) *netio.TraceContext {
 }
 
 func GetTraceContext(ctx context.Context) *netio.TraceContext {
+	if ctx == nil {
+		return nil
+	}
 	traceContext, ok := ctx.Value(tctxKey).(*netio.TraceContext)
 	if ok {
 		return traceContext
-- 
2.43.0


From 88e46c50a2cab279c9c06a9bc435f0c2ded364ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 30/49] fix: a recovered panic panicked again when no panic
 reporter was registered

---
 scouterx/common/panic.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scouterx/common/panic.go b/scouterx/common/panic.go
index f928e1b..4768aa7 100644
--- a/scouterx/common/panic.go
+++ b/scouterx/common/panic.go
@@ -18,7 +18,9 @@ func ReportScouterPanic() {
 	if r := recover(); r != nil {
 		stackTrace := dump.StackTrace(100)
 		fmt.Printf("[scouter][panic]%+v\n%s", r, stackTrace)
-		fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
+		if fSendPanic != nil {
+			fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
+		}
 	}
 }
 
-- 
2.43.0


From 4eb642736a8262aa619e444d340ec3912e369663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 31/49] fix: StartHttpService without a request or its URL
 returned no context

---
 scouterx/strace/tracemain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 7be89d1..3e8c6a8 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -158,6 +158,9 @@ func StartHttpService(ctx context.Context, req *http.Request) (newCtx context.Co
 	if tctxmanager.GetTraceContext(ctx) != nil {
 		return ctx
 	}
+	if req == nil || req.URL == nil {
+		return ctx
+	}
 
 	serviceName := strings.Join([]string{req.URL.Path, "<", req.Method, ">"}, "")
 
-- 
2.43.0


From 2308ee5d2ebf0706ccf7e5005d9681933f79804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 32/49] fix: inheriting from an untraced service returned no
 context

---
 scouterx/strace/tracemain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 3e8c6a8..6aa552e 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -236,6 +236,9 @@ func StartNewInheritanceService(ctx context.Context, parentTctx *netio.TraceCont
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	if parentTctx == nil {
+		return ctx, nil
+	}
 	newCtx, newTctx = startService(ctx, parentTctx.ServiceName, parentTctx.RemoteIp)
 	newTctx = inheritTctx(newTctx, parentTctx)
 
-- 
2.43.0


From 5f9743bced43e18fbb2b6940b3e937b19d22c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 33/49] fix: steps added to the no-op trace context were sent
 as a profile

---
 scouterx/netio/profilecollector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/netio/profilecollector.go b/scouterx/netio/profilecollector.go
index 3a52743..5cbcc5b 100644
--- a/scouterx/netio/profilecollector.go
+++ b/scouterx/netio/profilecollector.go
@@ -48,7 +48,7 @@ func (c *ProfileCollector) Add(ss netdata.Step) {
 
 func (c *ProfileCollector) Process(ss netdata.Step) {
 	c.checkDumpStep()
-	if c.closed {
+	if c.closed || c.tctx.Noop {
 		return
 	}
 	c.steps[c.pos] = ss
-- 
2.43.0


From 84f65721a8c68fc1ae59b42750b3d54e5cae3636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 34/49] fix: propagation to a request without headers lost the
 API call

---
 scouterx/strace/tracemain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 6aa552e..2d59afe 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -561,6 +561,9 @@ func StartApiCallWithPropagation(ctx context.Context, req *http.Request, apiCall
 		tctx.Gxid = tctx.Txid
 	}
 	if req != nil {
+		if req.Header == nil {
+			req.Header = http.Header{}
+		}
 		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
 		req.Header.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
 		req.Header.Add(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
-- 
2.43.0


From 446f90fe7c21d8e75f694d59b80ae56579809633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 35/49] fix: goroutines sharing a service lost each other's
 steps

---
 scouterx/netio/profilecollector.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/profilecollector.go b/scouterx/netio/profilecollector.go
index 5cbcc5b..8e7f028 100644
--- a/scouterx/netio/profilecollector.go
+++ b/scouterx/netio/profilecollector.go
@@ -3,6 +3,7 @@ package netio
 import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
+	"sync"
 )
 
 var aconf = conf.GetInstance()
@@ -15,6 +16,7 @@ type ProfileCollector struct {
 	currentLevel int32
 	parentLevel int32
 	closed bool
+	lock sync.Mutex
 }
 
 func NewProfileCollector(tctx *TraceContext) *ProfileCollector {
@@ -25,6 +27,8 @@ func NewProfileCollector(tctx *TraceContext) *ProfileCollector {
 }
 
 func (c *ProfileCollector) Push(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
 	ss.SetIndex(c.currentLevel)
 	ss.SetParent(c.parentLevel)
@@ -33,20 +37,30 @@ func (c *ProfileCollector) Push(ss netdata.Step) {
 }
 
 func (c *ProfileCollector) Pop(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
 	c.parentLevel = ss.GetParent()
-	c.Process(ss)
+	c.process(ss)
 }
 
 func (c *ProfileCollector) Add(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
 	ss.SetIndex(c.currentLevel)
 	ss.SetParent(c.parentLevel)
 	c.currentLevel++
-	c.Process(ss)
+	c.process(ss)
 }
 
 func (c *ProfileCollector) Process(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	c.process(ss)
+}
+
+func (c *ProfileCollector) process(ss netdata.Step) {
 	c.checkDumpStep()
 	if c.closed || c.tctx.Noop {
 		return
@@ -62,6 +76,8 @@ func (c *ProfileCollector) Process(ss netdata.Step) {
 }
 
 func (c *ProfileCollector) Close(ok bool) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
 	c.closed = true
 	if c.pos > 0 && ok {
-- 
2.43.0


From 6989d7c5c6e0ee55463382cbc6662f665004726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 36/49] fix: API calls of goroutines sharing a service were not
 all counted

---
 scouterx/strace/tracemain.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 2d59afe..39b2b94 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -16,6 +16,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -599,8 +600,8 @@ func EndApiCall(ctx context.Context, step *netdata.ApiCallStep, err error) {
 		return
 	}
 	step.Elapsed = util.MillisToNow(tctx.StartTime) - step.StartTime
-	tctx.ApicallCount++
-	tctx.ApicallTime += step.Elapsed
+	atomic.AddInt32(&tctx.ApicallCount, 1)
+	atomic.AddInt32(&tctx.ApicallTime, step.Elapsed)
 	if err != nil {
 		step.Error = netio.SendError(err.Error())
 		if tctx.Error == 0 {
-- 
2.43.0


From 75730add33dc2fac0972345cf4998016cafa333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 37/49] fix: the alert about a stuck service ended in a
 formatting error

---
 scouterx/strace/tctxmanager/tctxmanager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tctxmanager/tctxmanager.go b/scouterx/strace/tctxmanager/tctxmanager.go
index abb8d65..9fac444 100644
--- a/scouterx/strace/tctxmanager/tctxmanager.go
+++ b/scouterx/strace/tctxmanager/tctxmanager.go
@@ -97,7 +97,7 @@ func GetActiveCount() [3]int64 {
 		}
 		if elapsed > ac.StuckServiceBaseTimeMs {
 			fEndStuckServiceForcibly(tctx)
-			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d, tctxGoId: %d", tctx.ServiceName, elapsed, tctx.Goid)
+			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d", tctx.ServiceName, elapsed, tctx.Goid)
 			if ac.StuckServiceAlertEnabled {
 				netio.SendAlert(netdata.AlertError, "STUCK_SERVICE", message)
 			} else {
-- 
2.43.0


From a4995ebc832251db8f5f9abddf65071ee3785031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 38/49] fix: SendServiceCounter published the error rate as TPS
 and the TPS as error rate

---
 scouterx/counter/collector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/counter/collector.go b/scouterx/counter/collector.go
index 288f310..ed94d9a 100644
--- a/scouterx/counter/collector.go
+++ b/scouterx/counter/collector.go
@@ -49,9 +49,9 @@ func SendServiceCounter() {
 
 	//TODO activeCounter
 	//TODO WAS_ACTIVE_SERVICE, WAS_ACTIVE_SPEED
-	pack.Put(TPS, counter.ErrorRate)
+	pack.Put(TPS, counter.Tps)
 	pack.Put(ELAPSED_TIME, counter.Elapsed)
-	pack.Put(ERROR_RATE, counter.Tps)
+	pack.Put(ERROR_RATE, counter.ErrorRate)
 
 	netio.SendPackDirect(pack)
 }
-- 
2.43.0


From e7cc7e026711640052d984c6d08194dd64b5c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 39/49] fix: a collector that stopped reading its answers
 blocked the command connection for ever

---
 scouterx/netio/tcpclient/tcpclient.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index 356ffc6..9c5214d 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -111,10 +111,25 @@ func (c *TCPClient) Process() error {
 			out0.WriteIntBytes(packBytes)
 		}
 		out0.WriteUInt8(tcpflag.NoNEXT)
-		err = out.Write(out0.Bytes())
+		err = c.write(out0.Bytes())
 		if err != nil {
 			return err
 		}
 	}
 	return err
 }
+
+// write sends an answer. A collector that stops reading is given up like one that stops sending.
+func (c *TCPClient) write(b []byte) error {
+	for len(b) > 0 {
+		n := min(len(b), 64*1024)
+		if err := c.conn.SetWriteDeadline(time.Now().Add(time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond)); err != nil {
+			return err
+		}
+		if _, err := c.conn.Write(b[:n]); err != nil {
+			return err
+		}
+		b = b[n:]
+	}
+	return nil
+}
-- 
2.43.0


From 78a28b23eb7c770e8b0c994888621be1879b48bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 40/49] fix: a configuration set by the collector was not
 applied when the file's time had not advanced

---
 scouterx/conf/configure.go  | 7 +++++++
 scouterx/conf/exthandler.go | 1 +
 2 files changed, 8 insertions(+)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 9bdc836..d5823b5 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -266,6 +266,13 @@ func (conf *Configure) Refresh() {
 	}
 }
 
+// expire has the next Refresh load the file, whatever its modification time.
+func (conf *Configure) expire() {
+	conf.Lock()
+	defer conf.Unlock()
+	conf.lastModified = time.Time{}
+}
+
 func GetConfigureDescMap() *linkedhashmap.Map {
 	descSync.RLock()
 	defer descSync.RUnlock()
diff --git a/scouterx/conf/exthandler.go b/scouterx/conf/exthandler.go
index f7a17d5..41043a9 100644
--- a/scouterx/conf/exthandler.go
+++ b/scouterx/conf/exthandler.go
@@ -20,6 +20,7 @@ func SaveConfigText(text string) bool {
 		//TODO logging
 		return false
 	}
+	GetInstance().expire()
 	return true
 }
 
-- 
2.43.0


From 451eafa52cf212f869bc9b76b24794200e844e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 41/49] fix: listing the dump files failed when one disappeared
 meanwhile

---
 scouterx/dump/dump.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index c539fe4..faefcb6 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -215,6 +215,9 @@ func ListDumpFiles() netdata.Pack {
 	dumpPath := getDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			return nil
+		}
 		if !info.IsDir() {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
@@ -236,6 +239,9 @@ func ListBinaryDumpFiles() netdata.Pack {
 	dumpPath := getBinaryDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			return nil
+		}
 		if !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
-- 
2.43.0


From 2704165701b8c0744a6a2e2608f01b48f707e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 42/49] fix: the dump commands read and deleted files outside
 the dump directories

---
 scouterx/dump/dump.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index faefcb6..5bd6720 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -203,6 +203,11 @@ func getBinaryDumpPath() string {
 	return dumpPath
 }
 
+// isFileName tells a bare file name from a path, which could lead out of the dump directories.
+func isFileName(name string) bool {
+	return name != "" && name != "." && name != ".." && name == filepath.Base(name)
+}
+
 func ListDumpFiles() netdata.Pack {
 	pack := netdata.NewMapPack()
 	nameLv := netdata.NewListValue()
@@ -253,7 +258,7 @@ func ListBinaryDumpFiles() netdata.Pack {
 }
 
 func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if !isFileName(fileName) || !strings.HasSuffix(fileName, suffix){
 		return
 	}
 	dumpPath := getBinaryDumpPath()
@@ -290,7 +295,7 @@ func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
 
 func DeleteBinaryDumpFiles(fileName string) netdata.Pack {
 	pack := netdata.NewMapPack()
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if !isFileName(fileName) || !strings.HasSuffix(fileName, suffix){
 		pack.Put("success", netdata.NewBooleanValue(false))
 		pack.Put("msg", "no fileName")
 		return pack
@@ -315,6 +320,9 @@ func StreamDumpFileContents(param netdata.Pack, out *netdata.DataOutputX) {
 		return
 	}
 	name := p.GetString("name")
+	if !isFileName(name) {
+		return
+	}
 	dumpFile := filepath.Join(getDumpPath(), name)
 
 	data, err := os.Open(dumpFile)
-- 
2.43.0


From e2bd5495bd2f201f86880d07a04e497f1b68a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 43/49] fix: small goroutine dumps were left empty

---
 scouterx/dump/dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 5bd6720..bff5b40 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -68,7 +68,7 @@ func heavyAllStackTrace() (string, error) {
 	if fileName != "" {
 		f, err := os.Create(fileName)
 		if err == nil {
-			w = bufio.NewWriter(f)
+			w = f
 			defer f.Close()
 		} else {
 			return "", err
-- 
2.43.0


From b19a2955ca437957043b870e6dfe362c09592134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 44/49] fix: profiles of blocking or contention that overlapped
 cut one another short

---
 scouterx/dump/dump.go | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index bff5b40..ed3b7c9 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -15,6 +15,7 @@ import (
 	"runtime"
 	"runtime/pprof"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -107,6 +108,39 @@ func profileCpu(fileName string, sec int) {
 	time.Sleep(time.Duration(sec) * time.Second)
 }
 
+// sampling lets profiles overlap: it ends with the last of them.
+type sampling struct {
+	sync.Mutex
+	profiles int
+	old      int
+	setRate  func(rate int) (old int)
+}
+
+var blockSampling = sampling{setRate: func(rate int) int {
+	runtime.SetBlockProfileRate(rate)
+	return -1
+}}
+var mutexSampling = sampling{setRate: runtime.SetMutexProfileFraction}
+
+func (s *sampling) start(rate int) {
+	s.Lock()
+	defer s.Unlock()
+	old := s.setRate(rate)
+	if s.profiles == 0 {
+		s.old = old
+	}
+	s.profiles++
+}
+
+func (s *sampling) stop() {
+	s.Lock()
+	defer s.Unlock()
+	s.profiles--
+	if s.profiles == 0 {
+		s.setRate(s.old)
+	}
+}
+
 func ProfileBlock(sec, rate, level int) netdata.Pack {
 	fileName := filepath.Join(getDumpPath(), "go_block_" + time.Now().Format("20060102_150405") + ".log")
 
@@ -124,8 +158,8 @@ func ProfileBlockBinaryDump(sec, rate int) netdata.Pack {
 }
 
 func profileBlock(fileName string, sec, rate, level int) {
-	runtime.SetBlockProfileRate(rate)
-	defer runtime.SetBlockProfileRate(-1)
+	blockSampling.start(rate)
+	defer blockSampling.stop()
 	time.Sleep(time.Duration(sec) * time.Second)
 
 	var w *bufio.Writer
@@ -165,8 +199,8 @@ func ProfileMutexBinaryDump(sec, rate int) {
 
 
 func profileMutex(fileName string, sec, rate, level int) {
-	old := runtime.SetMutexProfileFraction(rate)
-	defer runtime.SetMutexProfileFraction(old)
+	mutexSampling.start(rate)
+	defer mutexSampling.stop()
 	time.Sleep(time.Duration(sec) * time.Second)
 
 	var w *bufio.Writer
-- 
2.43.0


From 4c95b9dde0722cbac6dd50fdadac9b083cf61a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:45 +0000
Subject: [PATCH 45/49] fix: a collector address changed while connecting went
 unnoticed on the connection

---
 scouterx/netio/tcpclient/tcpclient.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index 9c5214d..4e69c20 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -71,16 +71,13 @@ func (c *TCPClient) Process() error {
 	out := netdata.NewDataOutputX(c.conn)
 	defer c.conn.Close()
 
-	serverAddr := ac.NetCollectorIP
-	serverPort := ac.NetCollectorTCPPort
-
 	_, err := out.WriteInt32(int32(netcafeconstant.TCP_AGENT_V2))
 	_, err = out.WriteInt32(c.objHash)
 	if err != nil {
 		return err
 	}
 
-	for c.objHash == ac.ObjHash && serverAddr == ac.NetCollectorIP && serverPort == ac.NetCollectorTCPPort {
+	for c.objHash == ac.ObjHash && c.host == ac.NetCollectorIP && c.port == ac.NetCollectorTCPPort {
 		err := c.conn.SetReadDeadline(time.Now().Add(time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond))
 		if err != nil {
 			return err
-- 
2.43.0


From 6b705b153985cdc71ff1f5f85e3150dd64f70a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:53 +0000
Subject: [PATCH 46/49] fix: a service is listed as active before its name,
 goroutine and start are known

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 39b2b94..4a2908c 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -339,7 +339,6 @@ func endChildGoroutineService(ctx context.Context) {
 
 func startService(ctx context.Context, serviceName, remoteAddr string) (context.Context, *netio.TraceContext) {
 	newCtx, tctx := tctxmanager.NewTraceContext(ctx)
-	tctxmanager.Start(tctx)
 
 	tctx.Gxid = tctx.Txid
 	tctx.Goid = common.Goid()
@@ -348,6 +347,7 @@ func startService(ctx context.Context, serviceName, remoteAddr string) (context.
 	tctx.ServiceName = serviceName
 	tctx.ServiceHash = netio.SendServiceName(serviceName)
 	tctx.RemoteIp = normalizeIp(remoteAddr)
+	tctxmanager.Start(tctx) // from here on others look at it
 	return newCtx, tctx
 }
 
-- 
2.43.0


From 479f883590ece634b0b32ade8b1541d76f36190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:41 +0000
Subject: [PATCH 47/49] fix: services are traced, listed, counted and ended by
 goroutines which share their fields without synchronisation

---
 scouterx/netio/dataproxy.go                |  4 +-
 scouterx/netio/tcpclient/handlers.go       | 12 ++--
 scouterx/netio/tracecontext.go             | 83 +++++++++++++++++++---
 scouterx/strace/tctxmanager/tctxmanager.go |  5 +-
 scouterx/strace/tracemain.go               | 50 ++++++-------
 5 files changed, 112 insertions(+), 42 deletions(-)

diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index db9aab4..85348d6 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -250,8 +250,8 @@ func sendProfile0(steps []netdata.Step, tctx *TraceContext) {
 	pack.Txid = tctx.Txid
 	pack.ObjHash = ac.ObjHash
 	pack.Profile = netdata.StepsToBytes(steps)
-	pack.Service = tctx.ServiceHash
-	pack.Elapsed = int32(time.Now().Sub(tctx.StartTime) / time.Millisecond)
+	_, pack.Service = tctx.GetService()
+	pack.Elapsed = int32(time.Now().Sub(tctx.GetStartTime()) / time.Millisecond)
 	tctx.ProfileCount += len(steps)
 	tctx.ProfileSize += len(pack.Profile)
 
diff --git a/scouterx/netio/tcpclient/handlers.go b/scouterx/netio/tcpclient/handlers.go
index a39eb60..7366f29 100644
--- a/scouterx/netio/tcpclient/handlers.go
+++ b/scouterx/netio/tcpclient/handlers.go
@@ -231,13 +231,14 @@ func GetGoroutineDetail(param netdata.Pack) *netdata.MapPack {
 	}
 	goid := tctx.Goid
 	p.Put("Service Txid", util.IntToXlogString32(tctx.Txid));
-	p.Put("Service Name", tctx.ServiceName);
-	p.Put("Service Elapsed", util.MillisToNow(tctx.StartTime));
+	serviceName, _ := tctx.GetService()
+	p.Put("Service Name", serviceName);
+	p.Put("Service Elapsed", util.MillisToNow(tctx.GetStartTime()));
 	p.Put("Thread Id", -1);
 	p.Put("State", "n/a");
 	p.Put("Thread Name", "[goroutine] " + strconv.Itoa(goid));
 	p.Put("Stack Trace", "stacktrace for goroutine is not yet supported");
-	p.Put("Last trace method", tctx.LastMethod);
+	p.Put("Last trace method", tctx.GetLastMethod());
 
 	return p
 }
@@ -265,8 +266,9 @@ func GetActiveList() *netdata.MapPack {
 		tctx := tctx0.(*netio.TraceContext)
 		goid := tctx.Goid
 		id.AddInt64(int64(goid))
-		elapsed.AddInt32(util.MillisToNow(tctx.StartTime))
-		service.AddString(tctx.ServiceName)
+		serviceName, _ := tctx.GetService()
+		elapsed.AddInt32(util.MillisToNow(tctx.GetStartTime()))
+		service.AddString(serviceName)
 		name.AddString("[goroutine] " + strconv.Itoa(goid))
 		txid.AddString(util.IntToXlogString32(tctx.Txid))
 		ip.AddString(tctx.RemoteIp)
diff --git a/scouterx/netio/tracecontext.go b/scouterx/netio/tracecontext.go
index e7a4bbc..400ddf3 100644
--- a/scouterx/netio/tracecontext.go
+++ b/scouterx/netio/tracecontext.go
@@ -6,6 +6,7 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util/keygen"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -96,12 +97,14 @@ func NewNoopTraceContext() *TraceContext {
 	return context
 }
 
-var closeLock sync.Mutex
+// tctxLock guards the fields of a context that several goroutines use: those which trace one service,
+// and the agent's own, which list, count and end the active services.
+var tctxLock sync.RWMutex
 
 // Close marks the service as ended, and reports whether this call was the one which ended it.
 func (tctx *TraceContext) Close() bool {
-	closeLock.Lock()
-	defer closeLock.Unlock()
+	tctxLock.Lock()
+	defer tctxLock.Unlock()
 	if tctx.Closed {
 		return false
 	}
@@ -109,10 +112,74 @@ func (tctx *TraceContext) Close() bool {
 	return true
 }
 
-func (tctx (TraceContext)) ToXlog(discardType netdata.XlogDiscardType, elapsed int32) *netdata.XlogPack {
+func (tctx *TraceContext) IsClosed() bool {
+	tctxLock.RLock()
+	defer tctxLock.RUnlock()
+	return tctx.Closed
+}
+
+func (tctx *TraceContext) SetStartTime(t time.Time) {
+	tctxLock.Lock()
+	defer tctxLock.Unlock()
+	tctx.StartTime = t
+}
+
+func (tctx *TraceContext) GetStartTime() time.Time {
+	tctxLock.RLock()
+	defer tctxLock.RUnlock()
+	return tctx.StartTime
+}
+
+func (tctx *TraceContext) SetService(name string, hash int32) {
+	tctxLock.Lock()
+	defer tctxLock.Unlock()
+	tctx.ServiceName = name
+	tctx.ServiceHash = hash
+}
+
+func (tctx *TraceContext) GetService() (name string, hash int32) {
+	tctxLock.RLock()
+	defer tctxLock.RUnlock()
+	return tctx.ServiceName, tctx.ServiceHash
+}
+
+func (tctx *TraceContext) SetLastMethod(name string) {
+	tctxLock.Lock()
+	defer tctxLock.Unlock()
+	tctx.LastMethod = name
+}
+
+func (tctx *TraceContext) GetLastMethod() string {
+	tctxLock.RLock()
+	defer tctxLock.RUnlock()
+	return tctx.LastMethod
+}
+
+func (tctx *TraceContext) SetError(hash int32) {
+	tctxLock.Lock()
+	defer tctxLock.Unlock()
+	tctx.Error = hash
+}
+
+// SetFirstError sets the error unless there is one already.
+func (tctx *TraceContext) SetFirstError(hash int32) {
+	tctxLock.Lock()
+	defer tctxLock.Unlock()
+	if tctx.Error == 0 {
+		tctx.Error = hash
+	}
+}
+
+func (tctx *TraceContext) GetError() int32 {
+	tctxLock.RLock()
+	defer tctxLock.RUnlock()
+	return tctx.Error
+}
+
+func (tctx *TraceContext) ToXlog(discardType netdata.XlogDiscardType, elapsed int32) *netdata.XlogPack {
 	xlog := netdata.NewXlogPack()
 	xlog.Elapsed = elapsed
-	xlog.Service = tctx.ServiceHash
+	_, xlog.Service = tctx.GetService()
 	xlog.XType = tctx.XType
 	xlog.Txid = tctx.Txid
 	xlog.Gxid = tctx.Gxid
@@ -123,7 +190,7 @@ func (tctx (TraceContext)) ToXlog(discardType netdata.XlogDiscardType, elapsed i
 	xlog.Ipaddr = util.IpToBytes(tctx.RemoteIp)
 	xlog.Userid = tctx.Userid
 	xlog.HasDump = 0
-	xlog.Error = tctx.Error
+	xlog.Error = tctx.GetError()
 
 	xlog.Status = tctx.Status
 
@@ -133,8 +200,8 @@ func (tctx (TraceContext)) ToXlog(discardType netdata.XlogDiscardType, elapsed i
 	xlog.UserAgent = tctx.UserAgent
 	xlog.Referer = tctx.Referer
 
-	xlog.ApicallCount = tctx.ApicallCount
-	xlog.ApicallTime = tctx.ApicallTime
+	xlog.ApicallCount = atomic.LoadInt32(&tctx.ApicallCount)
+	xlog.ApicallTime = atomic.LoadInt32(&tctx.ApicallTime)
 
 	if tctx.Login != "" {
 		xlog.Login = SendLogin(tctx.Login)
diff --git a/scouterx/strace/tctxmanager/tctxmanager.go b/scouterx/strace/tctxmanager/tctxmanager.go
index 9fac444..d26f57a 100644
--- a/scouterx/strace/tctxmanager/tctxmanager.go
+++ b/scouterx/strace/tctxmanager/tctxmanager.go
@@ -87,7 +87,7 @@ func GetActiveCount() [3]int64 {
 			return active
 		}
 		tctx := v.(*netio.TraceContext)
-		elapsed := int(now.Sub(tctx.StartTime) / time.Millisecond)
+		elapsed := int(now.Sub(tctx.GetStartTime()) / time.Millisecond)
 		if elapsed <= ac.TraceActiveserviceYellowTime {
 			active[0]++
 		} else if elapsed <= ac.TraceActiveserviceRedTime {
@@ -97,7 +97,8 @@ func GetActiveCount() [3]int64 {
 		}
 		if elapsed > ac.StuckServiceBaseTimeMs {
 			fEndStuckServiceForcibly(tctx)
-			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d", tctx.ServiceName, elapsed, tctx.Goid)
+			serviceName, _ := tctx.GetService()
+			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d", serviceName, elapsed, tctx.Goid)
 			if ac.StuckServiceAlertEnabled {
 				netio.SendAlert(netdata.AlertError, "STUCK_SERVICE", message)
 			} else {
diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 4a2908c..7cc4ba0 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -61,8 +61,8 @@ func MarkAsError(ctx context.Context, errorMessage string) {
 	if tctx == nil {
 		return
 	}
-	if tctx.Error == 0 {
-		tctx.Error = netio.SendError(errorMessage)
+	if tctx.GetError() == 0 {
+		tctx.SetFirstError(netio.SendError(errorMessage))
 	}
 	AddPMessageStep(ctx, netdata.PMSG_ERROR, errorMessage, 0)
 }
@@ -76,7 +76,7 @@ func MarkAsErrorForcibly(ctx context.Context, errorMessage string) {
 	if tctx == nil {
 		return
 	}
-	tctx.Error = netio.SendError(errorMessage)
+	tctx.SetError(netio.SendError(errorMessage))
 }
 
 func SetServiceNameForcibly(ctx context.Context, serviceName string) {
@@ -88,8 +88,7 @@ func SetServiceNameForcibly(ctx context.Context, serviceName string) {
 	if tctx == nil {
 		return
 	}
-	tctx.ServiceName = serviceName
-	tctx.ServiceHash = netio.SendServiceName(serviceName)
+	tctx.SetService(serviceName, netio.SendServiceName(serviceName))
 }
 
 func AddStep(ctx context.Context, step netdata.Step) {
@@ -204,7 +203,7 @@ func EndHttpService(ctx context.Context, req *http.Request, res *http.Response)
 			return
 		}
 		tctx := tctxmanager.GetTraceContext(ctx)
-		if tctx == nil || tctx.Closed {
+		if tctx == nil || tctx.IsClosed() {
 			return
 		}
 		tctx.Status = int32(res.StatusCode)
@@ -240,7 +239,8 @@ func StartNewInheritanceService(ctx context.Context, parentTctx *netio.TraceCont
 	if parentTctx == nil {
 		return ctx, nil
 	}
-	newCtx, newTctx = startService(ctx, parentTctx.ServiceName, parentTctx.RemoteIp)
+	parentServiceName, _ := parentTctx.GetService()
+	newCtx, newTctx = startService(ctx, parentServiceName, parentTctx.RemoteIp)
 	newTctx = inheritTctx(newTctx, parentTctx)
 
 	return newCtx, newTctx
@@ -253,7 +253,7 @@ func inheritTctx(newTctx *netio.TraceContext, parentTctx *netio.TraceContext) *n
 	newTctx.Profile.Add(netdata.NewMessageStep("scouter inheritance step", 0))
 	newTctx.IsStream = parentTctx.IsStream
 
-	newTctx.Error = parentTctx.Error
+	newTctx.Error = parentTctx.GetError()
 	newTctx.HttpMethod = parentTctx.HttpMethod
 	newTctx.HttpQuery = parentTctx.HttpQuery
 	newTctx.HttpContentType = parentTctx.HttpContentType
@@ -263,8 +263,8 @@ func inheritTctx(newTctx *netio.TraceContext, parentTctx *netio.TraceContext) *n
 	newTctx.Sqltext = parentTctx.Sqltext
 
 	newTctx.ApicallName = parentTctx.ApicallName
-	newTctx.ApicallCount = parentTctx.ApicallCount
-	newTctx.ApicallTime = parentTctx.ApicallTime
+	newTctx.ApicallCount = atomic.LoadInt32(&parentTctx.ApicallCount)
+	newTctx.ApicallTime = atomic.LoadInt32(&parentTctx.ApicallTime)
 	newTctx.ApicallTarget = parentTctx.ApicallTarget
 
 	newTctx.Userid = parentTctx.Userid
@@ -298,7 +298,7 @@ func GoWithTrace(ctx context.Context, serviceName string, func4Goroutine func(ca
 	newCtx, childTctx := startChildGoroutineService(ctx, serviceName)
 	go func() {
 		if childTctx != nil {
-			childTctx.StartTime = time.Now()
+			childTctx.SetStartTime(time.Now())
 		}
 		defer endChildGoroutineService(newCtx)
 		func4Goroutine(newCtx)
@@ -356,7 +356,7 @@ func endAnyService(ctx context.Context) {
 		return
 	}
 	tctx := tctxmanager.GetTraceContext(ctx)
-	if tctx == nil || tctx.Closed {
+	if tctx == nil || tctx.IsClosed() {
 		return
 	}
 	endAnyServiceOfTraceContext(tctx)
@@ -365,13 +365,13 @@ func endAnyService(ctx context.Context) {
 func endStuckServiceForcibly(tctx *netio.TraceContext) {
 	defer common.ReportScouterPanic()
 	if ac.StuckServiceRemoveEnabled {
-		step := netdata.NewPMessageStep(util.MillisToNow(tctx.StartTime))
+		step := netdata.NewPMessageStep(util.MillisToNow(tctx.GetStartTime()))
 		step.SetMessage(netio.SendHashedMessage("Service currently may running, not finished!"))
 		step.Level = netdata.PMSG_ERROR
 		tctx.Profile.Add(step)
 
-		if tctx.Error == 0 {
-			tctx.Error = netio.SendError("This stuck service currently may running, not finished!")
+		if tctx.GetError() == 0 {
+			tctx.SetFirstError(netio.SendError("This stuck service currently may running, not finished!"))
 		}
 		endAnyServiceOfTraceContext(tctx)
 	}
@@ -382,10 +382,11 @@ func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
 		return
 	}
 
-	tctx.ServiceHash = netio.SendServiceName(tctx.ServiceName)
+	serviceName, _ := tctx.GetService()
+	tctx.SetService(serviceName, netio.SendServiceName(serviceName))
 	tctxmanager.End(tctx)
 
-	elapsed := util.MillisToNow(tctx.StartTime)
+	elapsed := util.MillisToNow(tctx.GetStartTime())
 	discardType := findXLogDiscard(tctx, elapsed)
 
 	writeProfile := discardType == netdata.XLOG_DISCARD_NONE //TODO consequence sampling
@@ -405,15 +406,16 @@ func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
 
 func findXLogDiscard(tctx *netio.TraceContext, elapsed int32) netdata.XlogDiscardType {
 	var discardMode netdata.XlogDiscardType
-	if tctx.Error != 0 {
+	serviceName, _ := tctx.GetService()
+	if tctx.GetError() != 0 {
 		discardMode = netdata.XLOG_DISCARD_NONE
 	} else {
-		discardMode = GetXlogSampler().eEvaluateXLogDiscard(elapsed, tctx.ServiceName)
+		discardMode = GetXlogSampler().eEvaluateXLogDiscard(elapsed, serviceName)
 	}
 	//check xlog discard pattern
-	if GetXlogSampler().isDiscardServicePattern(tctx.ServiceName) {
+	if GetXlogSampler().isDiscardServicePattern(serviceName) {
 		discardMode = netdata.XLOG_DISCARD_ALL_FORCE
-		if tctx.Error != 0 && ac.XlogDiscardServiceShowError {
+		if tctx.GetError() != 0 && ac.XlogDiscardServiceShowError {
 			discardMode = netdata.XLOG_DISCARD_NONE
 		}
 	}
@@ -466,7 +468,7 @@ func startMethodWithParam(ctx context.Context, params ...interface{}) *netdata.M
 
 func startMethodWithParam0(tctx *netio.TraceContext, funcName string, methodName string, params ...interface{}) *netdata.MethodStep {
 	addMessageStepIfParamExist(tctx, params)
-	tctx.LastMethod = funcName
+	tctx.SetLastMethod(funcName)
 
 	step := netdata.NewMethodStep()
 	step.Hash = netio.SendMethod(methodName)
@@ -604,9 +606,7 @@ func EndApiCall(ctx context.Context, step *netdata.ApiCallStep, err error) {
 	atomic.AddInt32(&tctx.ApicallTime, step.Elapsed)
 	if err != nil {
 		step.Error = netio.SendError(err.Error())
-		if tctx.Error == 0 {
-			tctx.Error = step.Error
-		}
+		tctx.SetFirstError(step.Error)
 	}
 	tctx.Profile.Pop(step)
 }
-- 
2.43.0


From 2621ae1a6b411ac781a89c74faee95e1ecd53e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:06 +0000
Subject: [PATCH 48/49] fix: a first configuration that cannot be read left the
 agent without its environment and its defaults

---
 scouterx/conf/configure.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index d5823b5..91aae61 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -211,9 +211,12 @@ func (conf *Configure) Refresh() {
 	conf.Lock()
 	defer conf.Unlock()
 
+	//until something is loaded, a file which cannot be read is no reason to leave out the environment and the defaults
+	first := conf.ObjName == ""
+
 	filePath := getConfFilePath()
 	info, err := os.Stat(filePath)
-	if err != nil {
+	if err != nil && !first {
 		//TODO logging
 		switch e := err.(type) {
 		case *os.PathError:
@@ -234,7 +237,7 @@ func (conf *Configure) Refresh() {
 		}
 
 		fileProps, err := properties.LoadFile(filePath, properties.UTF8)
-		if err != nil {
+		if err != nil && !first {
 			switch e := err.(type) {
 			case *os.PathError:
 				if e.Err != syscall.ENOENT {
@@ -257,7 +260,7 @@ func (conf *Configure) Refresh() {
 		})
 
 		conf.addToConf(props)
-		if info != nil {
+		if info != nil && err == nil {
 			conf.lastModified = info.ModTime()
 		}
 
-- 
2.43.0


From 0c07a7665e8a7b1d29aefd5b4746580c8611a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:46 +0000
Subject: [PATCH 49/49] fix: a request sent again kept the propagation headers
 of its earlier call first

StartApiCallWithPropagation added its headers to those of an earlier call
(or of the request being forwarded), and the callee reads the first.
---
 scouterx/strace/tracemain.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 7cc4ba0..6cec436 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -567,10 +567,10 @@ func StartApiCallWithPropagation(ctx context.Context, req *http.Request, apiCall
 		if req.Header == nil {
 			req.Header = http.Header{}
 		}
-		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
-		req.Header.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
-		req.Header.Add(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
-		req.Header.Add(interserviceCallerObjHeaderKey, strconv.FormatInt(int64(ac.ObjHash), 10))
+		req.Header.Set(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
+		req.Header.Set(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
+		req.Header.Set(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
+		req.Header.Set(interserviceCallerObjHeaderKey, strconv.FormatInt(int64(ac.ObjHash), 10))
 	}
 
 	return step
-- 
2.43.0

