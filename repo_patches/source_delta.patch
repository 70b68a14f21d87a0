From 4e89921befcfad6b045124d8f9590d05a5083b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:42 +0000
Subject: [PATCH 01/43] fix: a lookup never leaves the object it searches

A key that follows the addressed object in its parent, or that lies in a
sibling of a scalar, was taken for a member of it.
---
 inter_core.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 1ef3958..68b0104 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -265,6 +265,14 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										keyStart = start
 										break
 									} else {
+										// only an object or an array can be searched further.
+										j := offset
+										for j < len(json) && space(json[j]) {
+											j++
+										}
+										if j == len(json) || (json[j] != 91 && json[j] != 123) {
+											return -1, -1, -1, errKeyNotFound(path[k+1])
+										}
 										continue
 									}
 								}
@@ -314,7 +322,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										continue
 									}
 									if curr == 93 || curr == 125 {
-										if innerLevel < k+1 {
+										if innerLevel <= k+1 {
 											return -1, -1, -1, errKeyNotFound(currentPath)
 										}
 										innerLevel--
@@ -374,7 +382,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 					}
 					// Close brace
 					if curr == 93 || curr == 125 {
-						if level < k+1 {
+						if level <= k+1 {
 							return -1, -1, -1, errKeyNotFound(currentPath)
 						}
 						level--
-- 
2.43.0


From db32884de991ccf449632bdf90558e81ac833a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 02/43] fix: AddKeyValue and Add refuse strings that look like
 containers

---
 inter_add.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/inter_add.go b/inter_add.go
index 5eb2cad..7fabeb8 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -47,6 +47,10 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 		if err != nil {
 			return json, err
 		}
+		// a string value never is an object, whatever its content looks like.
+		if json[start-1] == 34 {
+			return json, errObjectExpected()
+		}
 	}
 	if json[start] == 123 && json[end-1] == 125 {
 		empty := true
@@ -117,6 +121,10 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 		if err != nil {
 			return json, err
 		}
+		// a string value never is an array, whatever its content looks like.
+		if json[start-1] == 34 {
+			return json, errArrayExpected()
+		}
 	}
 	if json[start] == 91 && json[end-1] == 93 {
 		empty := true
-- 
2.43.0


From a151a07ee97fb88288d7dd79cdead84083783d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 03/43] fix: Insert refuses strings that look like arrays

---
 inter_add.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inter_add.go b/inter_add.go
index 7fabeb8..d444b89 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -189,6 +189,10 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
 	}
+	// a string value never is an array, whatever its content looks like.
+	if len(path) != 0 && json[start-1] == 34 {
+		return json, errArrayExpected()
+	}
 	_, start, end, err = core(json, false, append(path, strconv.Itoa(index))...)
 	if err != nil {
 		return json, err
-- 
2.43.0


From 36df178a043a209e18b9ee797838a25d61cd389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 04/43] fix: Insert before the last element keeps whitespace
 out of the separators

---
 inter_add.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index d444b89..429f750 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -233,9 +233,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	}
 	if json[startEdge] == 44 {
 		val := make([]byte, 0, len(value)+1)
-		val = append(val, 44)
 		val = append(val, value...)
-		json = replace(json, val, start-1, start-1)
+		val = append(val, 44)
+		json = replace(json, val, start, start)
 		return json, nil
 	}
 	return json, errBadJSON(start)
-- 
2.43.0


From 532feb97c5cbd9d45c236617286b2c7a1f3e9578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 05/43] fix: paths handed in by the caller are never written to

---
 inter_add.go      | 4 ++--
 inter_get.go      | 4 ++--
 inter_set.go      | 2 +-
 jin_object_add.go | 2 +-
 utils.go          | 8 ++++++++
 walk.go           | 4 ++--
 6 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 429f750..e25c13b 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -64,7 +64,7 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			json = replace(json, val, end-1, end-1)
 			return json, nil
 		}
-		path = append(path, key)
+		path = extend(path, key)
 		_, _, _, err = core(json, false, path...)
 		if err != nil {
 			if ErrEqual(err, ErrCodeKeyNotFound) {
@@ -193,7 +193,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if len(path) != 0 && json[start-1] == 34 {
 		return json, errArrayExpected()
 	}
-	_, start, end, err = core(json, false, append(path, strconv.Itoa(index))...)
+	_, start, end, err = core(json, false, extend(path, strconv.Itoa(index))...)
 	if err != nil {
 		return json, err
 	}
diff --git a/inter_get.go b/inter_get.go
index 369126f..ab3d405 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -631,7 +631,7 @@ func GetAll(json []byte, keys []string, path ...string) ([]string, error) {
 	var val string
 	results := make([]string, 0, len(keys))
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, extend(path, k)...)
 		if err != nil {
 			return nil, err
 		}
@@ -647,7 +647,7 @@ func GetAllMap(json []byte, keys []string, path ...string) (map[string]string, e
 	var val string
 	results := make(map[string]string)
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, extend(path, k)...)
 		if err != nil {
 			return nil, err
 		}
diff --git a/inter_set.go b/inter_set.go
index f32c914..7f8bc4c 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -92,7 +92,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 // Store sets or adds a new value to the body
 // like a real json store event
 func Store(json []byte, key string, value []byte, path ...string) ([]byte, error) {
-	_, start, end, err := core(json, false, append(path, key)...)
+	_, start, end, err := core(json, false, extend(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			return AddKeyValue(json, key, value, path...)
diff --git a/jin_object_add.go b/jin_object_add.go
index 49e602d..6091547 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -108,7 +108,7 @@ func (j *JO) InsertBool(index int, value bool, path ...string) error {
 }
 
 func (j *JO) Store(key string, value []byte, path ...string) error {
-	_, start, end, err := core(j.body, false, append(path, key)...)
+	_, start, end, err := core(j.body, false, extend(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			j.body, err = AddKeyValue(j.body, key, value, path...)
diff --git a/utils.go b/utils.go
index 09ff21e..1615025 100755
--- a/utils.go
+++ b/utils.go
@@ -148,6 +148,14 @@ func byteArrayToString(arr []byte) string {
 	return *(*string)(unsafe.Pointer(&arr))
 }
 
+// extend returns a new path that goes one step further,
+// it never touches the memory of the path it is given.
+func extend(path []string, step string) []string {
+	newPath := make([]string, 0, len(path)+1)
+	newPath = append(newPath, path...)
+	return append(newPath, step)
+}
+
 func getStartEnd(json []byte, path ...string) (int, int, error) {
 	lenj := len(json)
 	if lenj < 2 {
diff --git a/walk.go b/walk.go
index 2c13fbd..46d8f6c 100644
--- a/walk.go
+++ b/walk.go
@@ -20,7 +20,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	switch t {
 	case TypeObject:
 		err := IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
-			err = walk(json, append(path, string(keyBytes)), callback)
+			err = walk(json, extend(path, string(keyBytes)), callback)
 			if err != nil {
 				return false, err
 			}
@@ -32,7 +32,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	case TypeArray:
 		i := 0
 		err := IterateArray(json, func(_ []byte) (bool, error) {
-			err = walk(json, append(path, strconv.Itoa(i)), callback)
+			err = walk(json, extend(path, strconv.Itoa(i)), callback)
 			if err != nil {
 				return false, err
 			}
-- 
2.43.0


From 09f7186e2695dfe188955afb1bc2088769cfa5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 06/43] fix: integers are added and inserted in decimal

---
 inter_add.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index e25c13b..d8f2c80 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -265,7 +265,7 @@ func AddKeyValueUint(json []byte, key string, value uint, path ...string) ([]byt
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueInt32 is a variation of AddKeyValue() func.
@@ -274,7 +274,7 @@ func AddKeyValueInt32(json []byte, key string, value int32, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddKeyValueInt64 is a variation of AddKeyValue() func.
@@ -283,7 +283,7 @@ func AddKeyValueInt64(json []byte, key string, value int64, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddKeyValueUint32 is a variation of AddKeyValue() func.
@@ -292,7 +292,7 @@ func AddKeyValueUint32(json []byte, key string, value uint32, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueUint64 is a variation of AddKeyValue() func.
@@ -301,7 +301,7 @@ func AddKeyValueUint64(json []byte, key string, value uint64, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddKeyValueFloat is a variation of AddKeyValue() func.
@@ -340,31 +340,31 @@ func AddInt(json []byte, value int, path ...string) ([]byte, error) {
 // AddInt32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt32(json []byte, value int32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddInt64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt64(json []byte, value int64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddUint is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint(json []byte, value uint, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint32(json []byte, value uint32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint64(json []byte, value uint64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddFloat is a variation of Add() func.
@@ -406,7 +406,7 @@ func InsertInt32(json []byte, index int, value int32, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // InsertInt64 is a variation of Insert() func.
@@ -415,7 +415,7 @@ func InsertInt64(json []byte, index int, value int64, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // InsertUint is a variation of Insert() func.
@@ -424,7 +424,7 @@ func InsertUint(json []byte, index int, value uint, path ...string) ([]byte, err
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint32 is a variation of Insert() func.
@@ -433,7 +433,7 @@ func InsertUint32(json []byte, index int, value uint32, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint64 is a variation of Insert() func.
@@ -442,7 +442,7 @@ func InsertUint64(json []byte, index int, value uint64, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // InsertFloat is a variation of Insert() func.
-- 
2.43.0


From ce2ff7cf168b410fe0ecded35239cc9ac4ac0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 07/43] fix: a refused string edit hands the document back

---
 inter_add.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index d8f2c80..f12d63f 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -245,7 +245,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 // Type of new value must be a string.
 func AddKeyValueString(json []byte, key, value string, path ...string) ([]byte, error) {
 	if len(key) == 0 {
-		return nil, errNullKey()
+		return json, errNullKey()
 	}
 	return AddKeyValue(json, key, []byte(formatType(value)), path...)
 }
@@ -386,7 +386,7 @@ func AddBool(json []byte, value bool, path ...string) ([]byte, error) {
 // Type of new value must be an string.
 func InsertString(json []byte, index int, value string, path ...string) ([]byte, error) {
 	if index < 0 {
-		return nil, errIndexOutOfRange()
+		return json, errIndexOutOfRange()
 	}
 	return Insert(json, index, []byte(formatType(value)), path...)
 }
-- 
2.43.0


From bb388506b38951072f9e78711b037439d21da891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:57 +0000
Subject: [PATCH 08/43] fix: core keeps inside the document, an empty array has
 no first element

---
 inter_core.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 68b0104..b5f6c27 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -33,7 +33,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 	// trim spaces of start
 	for space(json[offset]) {
 		// json length overflow control
-		if offset > len(json)-1 {
+		if offset >= len(json)-1 {
 			return -1, -1, -1, errBadJSON(offset)
 		}
 		offset++
@@ -401,19 +401,23 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 	}
 	// this means not search operation has take place
 	// it must be some kinda error or bad format
-	if offset == 0 {
+	if offset == 0 || offset >= len(json) {
 		return -1, -1, -1, errBadJSON(0)
 	}
 	// skip spaces from top.
 	for space(json[offset]) {
 		// json length overflow control
-		if offset > len(json)-1 {
+		if offset >= len(json)-1 {
 			return -1, -1, -1, errBadJSON(offset)
 		}
 		offset++
 		continue
 	}
 	if justStart {
+		// there is no value to start at in an empty array.
+		if json[offset] == 93 {
+			return -1, -1, -1, errEmptyArray()
+		}
 		return keyStart, offset, 0, nil
 	}
 	// If value starts with open braces
-- 
2.43.0


From 4f722661e9f6eafc7112cc8d9ea7e65ea0815fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 09/43] fix: IterateArray calls nothing for an empty array and
 follows its path

---
 inter_iter.go |  9 ++++++---
 utils.go      | 10 ++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/inter_iter.go b/inter_iter.go
index 0b3138b..72ddc43 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -8,16 +8,15 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 	case 0, 1:
 		return errBadJSON(0)
 	case 2:
-		if string(json) == "[]" {
+		if string(json) == "[]" && len(path) == 0 {
 			return nil
 		}
-		return errBadJSON(0)
 	}
 	var start int
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-2 {
+			if start >= len(json)-1 {
 				return errBadJSON(start)
 			}
 			start++
@@ -77,6 +76,10 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 				}
 				if curr == 93 {
 					if level == 0 {
+						// nothing but spaces, array is empty.
+						if blank(json[start:i]) {
+							return nil
+						}
 						_, innerError := callback(cleanValue(json[start:i]))
 						return innerError
 					}
diff --git a/utils.go b/utils.go
index 1615025..8a4d613 100755
--- a/utils.go
+++ b/utils.go
@@ -33,6 +33,16 @@ func space(curr byte) bool {
 	return false
 }
 
+// blank reports whether there is nothing but spaces.
+func blank(bytes []byte) bool {
+	for _, b := range bytes {
+		if !space(b) {
+			return false
+		}
+	}
+	return true
+}
+
 func createTabs(n int) []byte {
 	res := make([]byte, n)
 	for i := range res {
-- 
2.43.0


From d21290e635955c92406a3cae508f7b4994ab025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 10/43] fix: IterateKeyValue returns the last callback's error

---
 inter_iter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inter_iter.go b/inter_iter.go
index 72ddc43..f80362c 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -192,11 +192,11 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								}
 							}
 							if json[start] == 34 && json[end] == 34 {
-								callback(key, json[start+1:end])
-								return nil
+								_, innerError := callback(key, json[start+1:end])
+								return innerError
 							}
-							callback(key, json[start:end+1])
-							return nil
+							_, innerError := callback(key, json[start:end+1])
+							return innerError
 						}
 					}
 					if level == 1 {
-- 
2.43.0


From 70b106e18f755efbe52ac4a6efccec72548a12bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:13 +0000
Subject: [PATCH 11/43] fix: IterateKeyValue strips the spaces after a one
 letter value

---
 inter_iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_iter.go b/inter_iter.go
index f80362c..a4c7c61 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -214,7 +214,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								break
 							}
 						}
-						for j := i - 1; j > start; j-- {
+						for j := i - 1; j > start-1; j-- {
 							if !space(json[j]) {
 								end = j
 								break
-- 
2.43.0


From fab68d8cfa58890c65f72d3430973c53c8afbef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:12 +0000
Subject: [PATCH 12/43] fix: IterateKeyValue reports an empty object instead of
 a bogus member

---
 inter_iter.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/inter_iter.go b/inter_iter.go
index a4c7c61..d2206c7 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -109,6 +109,9 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 // It stripes quotation marks from string values befour return.
 // Path value can be left blank for access main JSON.
 func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), path ...string) error {
+	if len(json) < 2 {
+		return errBadJSON(0)
+	}
 	if string(json) == "{}" {
 		return errEmpty()
 	}
@@ -117,7 +120,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	var end int
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start >= len(json)-1 {
 				return errBadJSON(start)
 			}
 			start++
@@ -179,6 +182,10 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 				if curr == 93 || curr == 125 {
 					if curr == 125 {
 						if level == 1 {
+							// no name has been read, object is empty.
+							if key == nil {
+								return errEmpty()
+							}
 							for j := start; j < i; j++ {
 								if !space(json[j]) {
 									start = j
-- 
2.43.0


From 60e9fbbb97efb23503362c148033584aedabef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 13/43] fix: Length and GetMap measure the value their path
 points at

---
 inter_get.go | 8 ++++----
 others.go    | 2 +-
 utils.go     | 6 ++++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index ab3d405..455d457 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -591,7 +591,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 
 // GetMap Gets all keys and values pair with string to string map.
 func GetMap(json []byte, path ...string) (map[string]string, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return nil, nil
 	}
 	start, end, err := getStartEnd(json, path...)
@@ -599,17 +599,17 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		return nil, err
 	}
 	mainMap := make(map[string]string)
-	if json[start] == 123 && json[end] == 125 {
+	if json[start] == 123 && json[end-1] == 125 {
 		err = IterateKeyValue(json, func(key, val []byte) (bool, error) {
 			mainMap[string(key)] = string(val)
 			return true, nil
 		}, path...)
-		if err != nil {
+		if err != nil && !ErrEqual(err, ErrCodeEmpty) {
 			return nil, err
 		}
 		return mainMap, nil
 	}
-	if json[start] == 91 && json[end] == 93 {
+	if json[start] == 91 && json[end-1] == 93 {
 		count := 0
 		err = IterateArray(json, func(val []byte) (bool, error) {
 			mainMap[strconv.Itoa(count)] = string(val)
diff --git a/others.go b/others.go
index f35b3c2..67e17f7 100755
--- a/others.go
+++ b/others.go
@@ -3,7 +3,7 @@ package jin
 // Length function gives the length of any array or object
 // that path has pointed.
 func Length(json []byte, path ...string) (int, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return 0, nil
 	}
 	start, end, err := getStartEnd(json, path...)
diff --git a/utils.go b/utils.go
index 8a4d613..c5ff39b 100755
--- a/utils.go
+++ b/utils.go
@@ -182,7 +182,7 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 		}
 	} else {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start >= len(json)-1 {
 				return -1, -1, errBadJSON(start)
 			}
 			start++
@@ -190,12 +190,14 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 		}
 		end = lenj - 1
 		for space(json[end]) {
-			if end < start {
+			if end <= start {
 				return -1, -1, errBadJSON(start)
 			}
 			end--
 			continue
 		}
+		// end points behind the last char, like core's does.
+		end++
 	}
 	return start, end, nil
 }
-- 
2.43.0


From dbb9edebc95812c5428c8b4f38e3da6628deb725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 14/43] fix: cleanValue copes with one letter and empty texts

---
 utils.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index c5ff39b..18ebb23 100755
--- a/utils.go
+++ b/utils.go
@@ -114,14 +114,17 @@ func isInt(val string) bool {
 func cleanValueString(str string) string {
 	start := 0
 	lens := len(str)
+	if lens == 0 {
+		return str
+	}
 	for space(str[start]) && start < lens-1 {
 		start++
 	}
 	end := lens - 1
-	for space(str[end]) && end > 1 {
+	for space(str[end]) && end > start {
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if start < end && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
@@ -147,7 +150,7 @@ func cleanValue(str []byte) []byte {
 		}
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if start < end && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
-- 
2.43.0


From 96f6c2864357d2eb69a7c2ce135621110ee19013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 15/43] fix: name and value lists of an empty object are empty

---
 inter_get.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 455d457..79194e9 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -311,6 +311,9 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 // Gets all keys that path has pointed.
 func GetKeys(json []byte, path ...string) ([]string, error) {
 	var keys []string
+	if len(json) < 2 {
+		return nil, errBadJSON(0)
+	}
 	if string(json) == "{}" {
 		return nil, errEmpty()
 	}
@@ -318,7 +321,7 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start >= len(json)-1 {
 				return nil, errBadJSON(start)
 			}
 			start++
@@ -401,6 +404,9 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 // Gets all values that path has pointed.
 func GetValues(json []byte, path ...string) ([]string, error) {
 	var values []string
+	if len(json) < 2 {
+		return nil, errBadJSON(0)
+	}
 	if string(json) == "{}" {
 		return nil, errEmpty()
 	}
@@ -408,7 +414,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start >= len(json)-1 {
 				return nil, errBadJSON(start)
 			}
 			start++
@@ -426,6 +432,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 		isJSONChar[v] = true
 	}
 	if json[start] == 123 {
+		first := start
 		inQuote := false
 		level := 0
 		for i := start; i < len(json); i++ {
@@ -461,6 +468,10 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						// no name has been read, object is empty.
+						if start == first {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
@@ -493,6 +504,9 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	var values []string
 	var keys []string
+	if len(json) < 2 {
+		return nil, nil, errBadJSON(0)
+	}
 	if string(json) == "{}" {
 		return nil, nil, errEmpty()
 	}
@@ -500,7 +514,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start >= len(json)-1 {
 				return nil, nil, errBadJSON(start)
 			}
 			start++
@@ -518,6 +532,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 		isJSONChar[v] = true
 	}
 	if json[start] == 123 {
+		first := start
 		keyStart := 0
 		keyEnd := 0
 		inQuote := false
@@ -560,6 +575,10 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						// no name has been read, object is empty.
+						if start == first {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
-- 
2.43.0


From cb63b4f104a461583b5170e33fb25551ffad24ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 16/43] fix: IsEmpty counts a one letter element and refuses
 strings

---
 inter_type.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inter_type.go b/inter_type.go
index fd8015a..9a850fa 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -93,7 +93,7 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start >= len(json)-1 {
 				return false, errBadJSON(start)
 			}
 			start++
@@ -111,6 +111,10 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		if err != nil {
 			return false, err
 		}
+		// a string value never is an object or an array.
+		if json[start-1] == 34 {
+			return false, errObjectExpected()
+		}
 		end--
 	}
 	braceStart := json[start]
@@ -119,7 +123,7 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		if braceStart+2 != braceEnd {
 			return false, errBadJSON(end)
 		}
-		for i := start + 1; i < end-1; i++ {
+		for i := start + 1; i < end; i++ {
 			if !space(json[i]) {
 				return false, nil
 			}
-- 
2.43.0


From 3e0937548424d4ddd93a760cd69f1cc2af62f168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 17/43] fix: an array is not an object

---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index 9a850fa..7cf0bd0 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -15,7 +15,7 @@ const (
 // If path points to an object it will return true, otherwise it will return false.
 // In this instance 'object' means everything that has starts and ends with curly brace.
 func IsObject(json []byte, path ...string) (bool, error) {
-	state, _, err := typeControlCore(json, []byte{91, 123}, true, path...)
+	state, _, err := typeControlCore(json, []byte{123}, true, path...)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 41bf54e62f9e83fa838adda0c65962a780e44cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:00 +0000
Subject: [PATCH 18/43] fix: GetType knows numbers of any size

---
 inter_type.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/inter_type.go b/inter_type.go
index 7cf0bd0..fb8d476 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -1,6 +1,9 @@
 package jin
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+)
 
 const (
 	TypeArray   string = "array"
@@ -77,6 +80,10 @@ func GetType(json []byte, path ...string) (string, error) {
 	if err == nil {
 		return TypeNumber, nil
 	}
+	// a number too big for a float is still a number.
+	if errors.Is(err, strconv.ErrRange) {
+		return TypeNumber, nil
+	}
 	return TypeString, nil
 }
 
@@ -142,7 +149,7 @@ func typeControlCore(json []byte, control []byte, equal bool, path ...string) (b
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start >= len(json)-1 {
 				return false, -1, errBadJSON(start)
 			}
 			start++
-- 
2.43.0


From 707fe30a0782391fa7a7b0ea17dec6759ee16f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:24 +0000
Subject: [PATCH 19/43] fix: Walk passes empty containers and stops when told
 to

---
 walk.go | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/walk.go b/walk.go
index 46d8f6c..55f8f14 100644
--- a/walk.go
+++ b/walk.go
@@ -4,43 +4,54 @@ import "strconv"
 
 func (j *JO) Walk(callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(j.body, path, callback)
+	_, err := walk(j.body, path, callback)
+	return err
 }
 
 func Walk(json []byte, callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(json, path, callback)
+	_, err := walk(json, path, callback)
+	return err
 }
 
-func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) error {
+// walk returns false when the callback wants to stop.
+func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) (bool, error) {
 	t, err := GetType(json, path...)
 	if err != nil {
-		return err
+		return false, err
 	}
+	keepGoing := true
 	switch t {
 	case TypeObject:
-		err := IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
-			err = walk(json, extend(path, string(keyBytes)), callback)
+		empty, err := IsEmpty(json, path...)
+		if err != nil {
+			return false, err
+		}
+		if empty {
+			return true, nil
+		}
+		err = IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
+			keepGoing, err = walk(json, extend(path, string(keyBytes)), callback)
 			if err != nil {
 				return false, err
 			}
-			return true, nil
+			return keepGoing, nil
 		}, path...)
 		if err != nil {
-			return err
+			return false, err
 		}
 	case TypeArray:
 		i := 0
 		err := IterateArray(json, func(_ []byte) (bool, error) {
-			err = walk(json, extend(path, strconv.Itoa(i)), callback)
+			keepGoing, err = walk(json, extend(path, strconv.Itoa(i)), callback)
 			if err != nil {
 				return false, err
 			}
 			i++
-			return true, nil
+			return keepGoing, nil
 		}, path...)
 		if err != nil {
-			return err
+			return false, err
 		}
 	default:
 		key := ""
@@ -49,15 +60,12 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 		}
 		val, err := Get(json, path...)
 		if err != nil {
-			return err
+			return false, err
 		}
-		keepGoing, err := callback(key, val, path)
+		keepGoing, err = callback(key, val, path)
 		if err != nil {
-			return err
-		}
-		if !keepGoing {
-			return nil
+			return false, err
 		}
 	}
-	return nil
+	return keepGoing, nil
 }
-- 
2.43.0


From bd934e20bcecfe3852f9fec0f05ae3c67e671aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 20/43] fix: typed array getters and ParseArray give nothing
 for an empty array

---
 inter_get.go | 12 ++++++++++++
 others.go    |  4 ++++
 parse_get.go | 12 ++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index 79194e9..ee06474 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -137,6 +137,10 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// array is empty.
+							if start == 1 && blank([]byte(element)) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -203,6 +207,10 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// array is empty.
+							if start == 1 && blank([]byte(element)) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -269,6 +277,10 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// array is empty.
+							if start == 1 && blank([]byte(element)) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
diff --git a/others.go b/others.go
index 67e17f7..28807c3 100755
--- a/others.go
+++ b/others.go
@@ -215,6 +215,10 @@ func ParseArray(arr string) []string {
 					if curr == 93 {
 						if level == 0 {
 							val := arr[start:i]
+							// array is empty.
+							if start == 1 && blank([]byte(val)) {
+								break
+							}
 							val = cleanValueString(val)
 							newArray = append(newArray, val)
 							break
diff --git a/parse_get.go b/parse_get.go
index a0027a0..d2315d9 100755
--- a/parse_get.go
+++ b/parse_get.go
@@ -162,6 +162,10 @@ func (p *Parser) GetIntArray(path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// array is empty.
+							if start == 1 && blank([]byte(element)) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -228,6 +232,10 @@ func (p *Parser) GetFloatArray(path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// array is empty.
+							if start == 1 && blank([]byte(element)) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -294,6 +302,10 @@ func (p *Parser) GetBoolArray(path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// array is empty.
+							if start == 1 && blank([]byte(element)) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
-- 
2.43.0


From 510bababc75a1a9010e3111d0e15b35e1b46847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 21/43] fix: Indent follows escapes like Flatten does

---
 others.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/others.go b/others.go
index 28807c3..7c6c56a 100755
--- a/others.go
+++ b/others.go
@@ -106,11 +106,16 @@ func Indent(json []byte) []byte {
 	level := 0
 	for i := 0; i < len(json); i++ {
 		curr := json[i]
-		if curr == 34 {
+		if curr == 92 {
 			newJSON = append(newJSON, curr)
-			if json[i-1] == 92 {
-				continue
+			if i+1 < len(json) {
+				newJSON = append(newJSON, json[i+1])
 			}
+			i++
+			continue
+		}
+		if curr == 34 {
+			newJSON = append(newJSON, curr)
 			inQuote = !inQuote
 			continue
 		}
-- 
2.43.0


From d3cec9e206590ad3300f5b2ab4b4c5413636ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 22/43] fix: MakeArrayFloat writes its numbers

It cut every number off at a missing exponent, which left it empty, and
went out of range for one digit numbers.
---
 make.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/make.go b/make.go
index 15dd856..1357352 100755
--- a/make.go
+++ b/make.go
@@ -255,19 +255,7 @@ func MakeArrayFloat(values []float64) []byte {
 	js := make([]byte, 0, 128)
 	js = append(js, 91)
 	for _, v := range values {
-		num := strconv.FormatFloat(v, 'f', -1, 64)
-		start := 0
-		for i := 0; i < len(num); i++ {
-			if num[i] == 'e' {
-				start = i
-			}
-		}
-		exp, _ := strconv.Atoi(num[start+2:])
-		if exp == 0 {
-			js = append(js, []byte(num[:start])...)
-		} else {
-			js = append(js, []byte(num)...)
-		}
+		js = append(js, []byte(strconv.FormatFloat(v, 'f', -1, 64))...)
 		js = append(js, 44)
 	}
 	js = js[:len(js)-1]
-- 
2.43.0


From 75132e463108f85058450bae70ffef032694588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 23/43] fix: builders cope with empty lists and maps

An empty list that is not nil gave a lone closing bracket.
---
 make.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/make.go b/make.go
index 1357352..802193a 100755
--- a/make.go
+++ b/make.go
@@ -169,7 +169,7 @@ func MakeEmptyArray() []byte {
 // Do not use any slice/array for parameter.
 // It will accept this kind types but won't be able to make valid representation for use!
 func MakeArray(elements ...interface{}) []byte {
-	if elements == nil {
+	if len(elements) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -187,7 +187,7 @@ func MakeArray(elements ...interface{}) []byte {
 // Parameter type must be slice of string.
 // For more information look MakeArray() function.
 func MakeArrayString(values []string) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte(`[]`)
 	}
 	js := make([]byte, 0, 128)
@@ -205,7 +205,7 @@ func MakeArrayString(values []string) []byte {
 // Parameter type must be slice of integer.
 // For more information look MakeArray() function.
 func MakeArrayInt(values []int) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -223,7 +223,7 @@ func MakeArrayInt(values []int) []byte {
 // Parameter type must be slice of boolean.
 // For more information look MakeArray() function.
 func MakeArrayBool(values []bool) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -249,7 +249,7 @@ func MakeArrayBool(values []bool) []byte {
 // Parameter type must be slice of float64.
 // For more information look MakeArray() function.
 func MakeArrayFloat(values []float64) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -267,7 +267,7 @@ func MakeArrayFloat(values []float64) []byte {
 // Parameter type must be slice of byte.
 // For more information look MakeArray() function.
 func MakeArrayBytes(values ...[]byte) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -293,7 +293,7 @@ func MakeJson(keys []string, values []interface{}) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -316,7 +316,7 @@ func MakeJsonString(keys, values []string) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -336,7 +336,7 @@ func MakeJsonString(keys, values []string) []byte {
 
 // MakeJsonWithMap creates an JSON formation from given string-string-map, and returns them as byte slice.
 func MakeJsonWithMap(json map[string]string) []byte {
-	if json == nil {
+	if len(json) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
-- 
2.43.0


From 7158421831429753d994620c61e0d74f59e87910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 24/43] fix: schemes keep their key lists to themselves

The constructor's, the current, the saved and the returned lists shared
memory, a change of one showed in the others.
---
 make.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/make.go b/make.go
index 802193a..609182c 100755
--- a/make.go
+++ b/make.go
@@ -14,11 +14,17 @@ type Scheme struct {
 	keys         []string
 }
 
+// copyKeys keeps the key lists of a scheme apart from each other
+// and from the lists its callers hold.
+func copyKeys(keys []string) []string {
+	return append([]string(nil), keys...)
+}
+
 // MakeScheme is constructor method for creating Scheme's.
 // It needs key(s) for create JSON.
 // More information on Type Scheme example.
 func MakeScheme(keys ...string) *Scheme {
-	return &Scheme{keys: keys, originalKeys: keys}
+	return &Scheme{keys: copyKeys(keys), originalKeys: copyKeys(keys)}
 }
 
 // MakeJson is main creation method for creating JSON's from Schemes.
@@ -139,25 +145,25 @@ func (s *Scheme) Remove(key string) bool {
 // Save saves current keys for protect them temporary changes.
 // More information on Type Scheme example.
 func (s *Scheme) Save() {
-	s.originalKeys = s.keys
+	s.originalKeys = copyKeys(s.keys)
 }
 
 // Restore Schemes original form.
 // More information on Type Scheme example.
 func (s *Scheme) Restore() {
-	s.keys = s.originalKeys
+	s.keys = copyKeys(s.originalKeys)
 }
 
 // GetOriginalKeys is a simple get function for get Schemes original keys.
 // More information on Type Scheme example.
 func (s *Scheme) GetOriginalKeys() []string {
-	return s.originalKeys
+	return copyKeys(s.originalKeys)
 }
 
 // GetCurrentKeys is a simple get function for get Schemes current keys.
 // More information on Type Scheme example.
 func (s *Scheme) GetCurrentKeys() []string {
-	return s.keys
+	return copyKeys(s.keys)
 }
 
 // MakeEmptyArray simply creates "[]" this as byte slice.
-- 
2.43.0


From 9eacc5bdc0122edb23b6759fc15ee0520858df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 25/43] fix: MutateJson reports the error that stopped it

---
 make.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make.go b/make.go
index 609182c..b89121a 100755
--- a/make.go
+++ b/make.go
@@ -50,7 +50,7 @@ func (s *Scheme) MutateJson(json []byte) ([]byte, error) {
 		newJson, err2 = AddKeyValueString(newJson, k, val)
 		if err == nil {
 			if err2 != nil {
-				return nil, err
+				return nil, err2
 			}
 		}
 	}
-- 
2.43.0


From f27777ad7a87285e11939359fa4ccd4a87a42b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 26/43] fix: only JSON numbers are written without quotes

NaN, +5, 0x10, .5 or -01 ended up in the document as they are.
---
 utils.go | 49 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/utils.go b/utils.go
index 18ebb23..b7ef794 100755
--- a/utils.go
+++ b/utils.go
@@ -68,13 +68,7 @@ func formatType(val string) string {
 	if isBool(val) {
 		return val
 	}
-	if isInt(val) {
-		if val[0] == 48 && len(val) > 1 {
-			return `"` + val + `"`
-		}
-		return val
-	}
-	if isFloat(val) {
+	if isNumber(val) && isFloat(val) {
 		return val
 	}
 	if val == "null" {
@@ -106,9 +100,44 @@ func isFloat(val string) bool {
 	return err == nil
 }
 
-func isInt(val string) bool {
-	_, err := strconv.ParseInt(val, 10, 32)
-	return err == nil
+// isNumber reports whether val is written like a JSON number.
+func isNumber(val string) bool {
+	i := 0
+	digits := func() bool {
+		start := i
+		for i < len(val) && val[i] >= 48 && val[i] <= 57 {
+			i++
+		}
+		return i > start
+	}
+	// minus sign
+	if i < len(val) && val[i] == 45 {
+		i++
+	}
+	// no leading zeros
+	if i < len(val) && val[i] == 48 {
+		i++
+	} else if !digits() {
+		return false
+	}
+	// fraction
+	if i < len(val) && val[i] == 46 {
+		i++
+		if !digits() {
+			return false
+		}
+	}
+	// exponent
+	if i < len(val) && (val[i] == 101 || val[i] == 69) {
+		i++
+		if i < len(val) && (val[i] == 43 || val[i] == 45) {
+			i++
+		}
+		if !digits() {
+			return false
+		}
+	}
+	return i == len(val)
 }
 
 func cleanValueString(str string) string {
-- 
2.43.0


From 7a6bbd320f9eedca8a3a928c1968ffe2563ddb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 27/43] fix: JO.StoreString stores a string

---
 jin_object_add.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jin_object_add.go b/jin_object_add.go
index 6091547..dfa91e8 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -127,7 +127,7 @@ func (j *JO) Store(key string, value []byte, path ...string) error {
 // StoreString jin_object method for same function name with interpreter
 func (j *JO) StoreString(key string, value string, path ...string) error {
 	var err error
-	j.body, err = Store(j.body, key, []byte(value), path...)
+	j.body, err = StoreString(j.body, key, value, path...)
 	return err
 }
 
-- 
2.43.0


From c91aad8a40860df446d57d489e827a2460331289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 28/43] fix: Parse keeps the only element of an array

[1] parsed into an empty array, the element could not be looked up.
---
 parse_core.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse_core.go b/parse_core.go
index 0dee1ff..5489bc0 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -87,6 +87,12 @@ func pCore(json []byte, core *node) error {
 					newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
 					core.down = append(core.down, newNode)
 					valStart = i + 1
+				case 91:
+					// the only element of an array.
+					if !blank(json[valStart:i]) {
+						newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
+						core.down = append(core.down, newNode)
+					}
 				}
 				core.value = json[braceList.pop() : i+1]
 				indexList.pop()
-- 
2.43.0


From 2eaa1f8030aab46461422fea25358dd352acf5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 29/43] fix: Parse refuses unbalanced documents

Blank documents, a bracket too much or a colon without a key made it panic.
A missing bracket left containers without text, on which GetNew panicked.
---
 parse_core.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parse_core.go b/parse_core.go
index 5489bc0..202eed1 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -22,8 +22,8 @@ func pCore(json []byte, core *node) error {
 		isJSONChar[v] = true
 	}
 	for space(json[start]) {
-		if start > len(json)-1 {
-			return nil
+		if start >= len(json)-1 {
+			return errBadJSON(start)
 		}
 		start++
 	}
@@ -94,12 +94,20 @@ func pCore(json []byte, core *node) error {
 						core.down = append(core.down, newNode)
 					}
 				}
+				// there is nothing to close.
+				if core.up == nil {
+					return errBadJSON(i)
+				}
 				core.value = json[braceList.pop() : i+1]
 				indexList.pop()
 				core = core.up
 				last = curr
 				continue
 			case 58:
+				// there is no key.
+				if end < start {
+					return errBadJSON(i)
+				}
 				key = json[start:end]
 				valStart = i + 1
 				last = 58
@@ -120,5 +128,9 @@ func pCore(json []byte, core *node) error {
 			}
 		}
 	}
+	// something is still open.
+	if core.up != nil {
+		return errBadJSON(lenj - 1)
+	}
 	return nil
 }
-- 
2.43.0


From 62edf4cff1695b161d64b47bb484ae608480af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 30/43] fix: Parser.Set keeps the tree in step with the text

Values below a newly set container could not be looked up, a scalar set
in place of a container left the old children, errors were dropped after
the tree had changed. The tree is built anew from the edited text.
---
 parse_set.go   | 42 +-----------------------------------------
 parse_utils.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 41 deletions(-)

diff --git a/parse_set.go b/parse_set.go
index d257432..5bbc816 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -7,47 +7,7 @@ import "strconv"
 // Path variable can not be null,
 // otherwise it will provide an error message.
 func (p *Parser) Set(newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenp == 0 {
-		return errNullPath()
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	if lenv >= 2 {
-		if newVal[0] == 91 || newVal[0] == 123 {
-			newCore := createNode(nil)
-			pCore(newVal, newCore)
-			newCore.label = curr.label
-			newCore.up = curr.up
-			index := curr.getIndex()
-			curr.up.down[index] = newCore
-			newCore.value = newVal
-			p.json, _ = Set(p.json, newVal, path...)
-			for i := 0; i < lenp-1; i++ {
-				newCore = newCore.up
-				newCore.value, err = Get(p.json, path[:lenp-1-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-	}
-	curr.value = newVal
-	p.json, _ = Set(p.json, newVal, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.reload(Set(p.json, newVal, path...))
 }
 
 // SetString is a variation of Set() func.
diff --git a/parse_utils.go b/parse_utils.go
index 0bdd206..54e467c 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -81,6 +81,20 @@ func Parse(json []byte) (*Parser, error) {
 	return &pars, nil
 }
 
+// reload parses the document an edit has made and puts it in the place of
+// the old one. An error leaves the parser as it is.
+func (p *Parser) reload(json []byte, err error) error {
+	if err != nil {
+		return err
+	}
+	pars, err := Parse(json)
+	if err != nil {
+		return err
+	}
+	p.core, p.json = pars.core, pars.json
+	return nil
+}
+
 func (n *node) insert(up *node, index int) error {
 	lend := len(up.down)
 	if lend != 0 {
-- 
2.43.0


From 4971494af579a190e6a43a77b0f0fb2aa2c979c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 31/43] fix: Parser.SetString formats like the interpreter's

An empty string made it panic, strings with one quote at an end were
written as they are.
---
 parse_set.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/parse_set.go b/parse_set.go
index 5bbc816..7e1e6c7 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -13,10 +13,7 @@ func (p *Parser) Set(newVal []byte, path ...string) error {
 // SetString is a variation of Set() func.
 // SetString takes the set value as string.
 func (p *Parser) SetString(newValue string, path ...string) error {
-	if newValue[0] != 34 && newValue[len(newValue)-1] != 34 {
-		return p.Set([]byte(`"`+newValue+`"`), path...)
-	}
-	return p.Set([]byte(newValue), path...)
+	return p.Set([]byte(formatType(newValue)), path...)
 }
 
 // SetInt is a variation of Set() func.
-- 
2.43.0


From 3424d5a6f92c188741606ed85b8a032f3a2824b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:41 +0000
Subject: [PATCH 32/43] fix: Parser.SetKey keeps the tree in step with the text

Array elements were renamed in the tree though the text refuses it.
---
 parse_set.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/parse_set.go b/parse_set.go
index 7e1e6c7..6e64faa 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -61,14 +61,5 @@ func (p *Parser) SetKey(newKey string, path ...string) error {
 			return errKeyAlreadyExist(newKey)
 		}
 	}
-	curr.label = newKey
-	p.json, _ = SetKey(p.json, newKey, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, _ = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.reload(SetKey(p.json, newKey, path...))
 }
-- 
2.43.0


From 1bdccbfbe9e469e12f3f62dd0f37891a717f1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:41 +0000
Subject: [PATCH 33/43] fix: Parser.Delete keeps the tree in step with the text

Elements behind a deleted one kept their old positions in the tree.
---
 parse_delete.go | 24 +-----------------------
 parse_utils.go  | 19 -------------------
 2 files changed, 1 insertion(+), 42 deletions(-)

diff --git a/parse_delete.go b/parse_delete.go
index 726979c..80ca1b0 100755
--- a/parse_delete.go
+++ b/parse_delete.go
@@ -4,27 +4,5 @@ package jin
 // Path value must be provided,
 // otherwise it will provide an error message.
 func (p *Parser) Delete(path ...string) error {
-	var err error
-	var curr *node
-	lenp := len(path)
-	if lenp == 0 {
-		return errNullPath()
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	curr.deAttach()
-	p.json, err = Delete(p.json, path...)
-	if err != nil {
-		return err
-	}
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-i-1]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.reload(Delete(p.json, path...))
 }
diff --git a/parse_utils.go b/parse_utils.go
index 54e467c..ca1abe6 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -111,16 +111,6 @@ func (n *node) insert(up *node, index int) error {
 	return errIndexOutOfRange()
 }
 
-func (n *node) deAttach() {
-	newDown := make([]*node, 0, len(n.up.down)-1)
-	for _, d := range n.up.down {
-		if d.label != n.label {
-			newDown = append(newDown, d)
-		}
-	}
-	n.up.down = newDown
-}
-
 func (n *node) walk(path []string) (*node, error) {
 	for _, p := range path {
 		for _, d := range n.down {
@@ -136,15 +126,6 @@ func (n *node) walk(path []string) (*node, error) {
 	return n, nil
 }
 
-func (n *node) getIndex() int {
-	for i, v := range n.up.down {
-		if v.label == n.label {
-			return i
-		}
-	}
-	return -1
-}
-
 // Tree is a simple tool for visualizing JSONs as semi-tree formation.
 // This function returns that form as string.
 func (p *Parser) Tree() string {
-- 
2.43.0


From 05939d8725472e5aa170c3f51bd7d10f163203f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:41 +0000
Subject: [PATCH 34/43] fix: Parser.AddKeyValue keeps the tree in step with the
 text

It looked for the new name among the siblings of the object, wrote a
leading comma into an empty root object, read an empty value out of
range, and lost the values below a newly added container.
---
 parse_add.go | 103 +--------------------------------------------------
 1 file changed, 2 insertions(+), 101 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 8361fd1..e0b9a47 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -8,109 +8,10 @@ import (
 // Path variable must point to an object,
 // otherwise it will provide an error message.
 func (p *Parser) AddKeyValue(key string, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(key)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(key) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
-	if err != nil {
-		return err
-	}
-	curr = p.core
-	if lenp == 0 {
-		for _, d := range curr.down {
-			if d.label == key {
-				return errKeyAlreadyExist(key)
-			}
-		}
-		if len(json) >= 2 {
-			if json[0] == 123 && json[len(json)-1] == 125 {
-				newKV := []byte(`,"` + key + `":` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						newNode.label = key
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newKV[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				newNode.label = key
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errObjectExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	for _, d := range curr.up.down {
-		if d.label == key {
-			return errKeyAlreadyExist(key)
-		}
-	}
-	if len(json) >= 2 {
-		if json[0] == 123 && json[len(json)-1] == 125 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					newNode.label = key
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = AddKeyValue(p.json, key, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			newNode.label = key
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = AddKeyValue(p.json, key, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errObjectExpected()
-	}
-	return errBadJSON(0)
+	return p.reload(AddKeyValue(p.json, key, newVal, path...))
 }
 
 // Add adds a value to an array.
-- 
2.43.0


From 70e248abe67183576464fc7d3c80cf1e7a9cc23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:41 +0000
Subject: [PATCH 35/43] fix: Parser.Add keeps the tree in step with the text

It wrote a leading comma into an empty root array, behind the spaces at
the end of the document, and lost the values below a newly added container.
---
 parse_add.go | 100 ++-------------------------------------------------
 1 file changed, 2 insertions(+), 98 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index e0b9a47..753db76 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -18,106 +18,10 @@ func (p *Parser) AddKeyValue(key string, newVal []byte, path ...string) error {
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Add(newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
-	if err != nil {
-		return err
-	}
-	if err != nil {
-		return err
-	}
-	if lenp == 0 {
-		curr = p.core
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				newValue := []byte(`,` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						index := len(curr.down)
-						newNode.label = strconv.Itoa(index)
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newValue[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				index := len(curr.down)
-				newNode.label = strconv.Itoa(index)
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					index := len(curr.down)
-					newNode.label = strconv.Itoa(index)
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Add(p.json, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp-1; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			index := len(curr.down)
-			newNode.label = strconv.Itoa(index)
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Add(p.json, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
-	}
-	return errBadJSON(0)
+	return p.reload(Add(p.json, newVal, path...))
 }
 
 // Insert inserts a value to an array.
-- 
2.43.0


From 7cad64cf343a00d6df5e5144728e02c6855254aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:41 +0000
Subject: [PATCH 36/43] fix: Parser.Insert keeps the tree in step with the text

The root array was renumbered twice, a refused position left a renumbered
tree, values below a newly inserted container could not be looked up.
---
 parse_add.go   | 113 +------------------------------------------------
 parse_utils.go |  22 ----------
 2 files changed, 2 insertions(+), 133 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 753db76..fa1d788 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -28,119 +28,10 @@ func (p *Parser) Add(newVal []byte, path ...string) error {
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Insert(newIndex int, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
-	if err != nil {
-		return err
-	}
-	curr = p.core
-	if lenp == 0 {
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						p.json, err = Insert(p.json, newIndex, newVal, path...)
-						if err != nil {
-							return err
-						}
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				newNode := createNode(nil)
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				p.json, err = Insert(p.json, newIndex, newVal, path...)
-				if err != nil {
-					return err
-				}
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					err = newNode.insert(curr, newIndex)
-					if err != nil {
-						return err
-					}
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Insert(p.json, newIndex, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			err = newNode.insert(curr, newIndex)
-			if err != nil {
-				return err
-			}
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Insert(p.json, newIndex, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
-	}
-	return errBadJSON(0)
+	return p.reload(Insert(p.json, newIndex, newVal, path...))
 }
 
 // AddKeyValueString is a variation of AddKeyValue() func.
diff --git a/parse_utils.go b/parse_utils.go
index ca1abe6..0d509df 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -2,7 +2,6 @@ package jin
 
 import (
 	"fmt"
-	"strconv"
 )
 
 type node struct {
@@ -20,11 +19,6 @@ type Parser struct {
 	json []byte
 }
 
-func createNode(up *node) *node {
-	Node := node{up: up}
-	return &Node
-}
-
 func packKeyValue(label string, value []byte) []byte {
 	byteOutput := make([]byte, 0, 16)
 	byteOutput = append(byteOutput, 34)
@@ -95,22 +89,6 @@ func (p *Parser) reload(json []byte, err error) error {
 	return nil
 }
 
-func (n *node) insert(up *node, index int) error {
-	lend := len(up.down)
-	if lend != 0 {
-		if lend-1 < index {
-			return errIndexOutOfRange()
-		}
-		for i := index; i < lend; i++ {
-			up.down[i].label = strconv.Itoa(i + 1)
-		}
-		n.label = strconv.Itoa(index)
-		n.up = up
-		return nil
-	}
-	return errIndexOutOfRange()
-}
-
 func (n *node) walk(path []string) (*node, error) {
 	for _, p := range path {
 		for _, d := range n.down {
-- 
2.43.0


From f690fdd714c969c44e821b98d08402a3cfd933f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:26 +0000
Subject: [PATCH 37/43] fix: an empty object fits an empty scheme absolutely

---
 make.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/make.go b/make.go
index b89121a..0aeba1f 100755
--- a/make.go
+++ b/make.go
@@ -91,7 +91,8 @@ func (s *Scheme) Check(json []byte) bool {
 func (s *Scheme) CheckAbs(json []byte) bool {
 	keys, err := GetKeys(json)
 	if err != nil {
-		return false
+		// an empty object fits an empty scheme.
+		return len(s.keys) == 0 && ErrEqual(err, ErrCodeEmpty)
 	}
 	if len(keys) != len(s.keys) {
 		return false
-- 
2.43.0


From 1c082d837ec52ac4ce9c33c5c8b9eebbd96aa439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 38/43] fix: Indent copes with more braces closed than opened

---
 utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils.go b/utils.go
index b7ef794..cbf496d 100755
--- a/utils.go
+++ b/utils.go
@@ -44,6 +44,10 @@ func blank(bytes []byte) bool {
 }
 
 func createTabs(n int) []byte {
+	// more braces are closed than opened.
+	if n < 0 {
+		n = 0
+	}
 	res := make([]byte, n)
 	for i := range res {
 		res[i] = 9
-- 
2.43.0


From 21f2ea02dac9aae768df831688c4b34353fe0c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 39/43] fix: a colon without a key or a value is no reason to
 panic

---
 inter_get.go  |  8 ++++++++
 inter_iter.go | 12 ++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index ee06474..474f534 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -400,6 +400,10 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						// there is no key before the colon.
+						if keyEnd <= keyStart {
+							return nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 					}
@@ -600,6 +604,10 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						// there is no key before the colon.
+						if keyEnd <= keyStart {
+							return nil, nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 						start = i + 1
diff --git a/inter_iter.go b/inter_iter.go
index d2206c7..524938a 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -198,7 +198,11 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 									break
 								}
 							}
-							if json[start] == 34 && json[end] == 34 {
+							// there is no value between the colon and the brace.
+							if end < start {
+								return errBadJSON(i)
+							}
+							if start < end && json[start] == 34 && json[end] == 34 {
 								_, innerError := callback(key, json[start+1:end])
 								return innerError
 							}
@@ -227,7 +231,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								break
 							}
 						}
-						if json[start] == 34 && json[end] == 34 {
+						if start < end && json[start] == 34 && json[end] == 34 {
 							keepGoing, innerError := callback(key, json[start+1:end])
 							if innerError != nil {
 								return innerError
@@ -247,6 +251,10 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 						continue
 					}
 					if curr == 58 {
+						// there is no key before the colon.
+						if keyEnd <= keyStart {
+							return errBadJSON(i)
+						}
 						key = json[keyStart+1 : keyEnd]
 						start = i + 1
 						continue
-- 
2.43.0


From 23ed8e5535e9b5451edb479d5c5819839236febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 40/43] fix: a key search finds nothing before the first key

---
 inter_core.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inter_core.go b/inter_core.go
index b5f6c27..3fc1d22 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -245,7 +245,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 						if curr == 58 {
 							// comp between current path and key
 							// length comp between current path and key
-							if len(currentPath) == end-start {
+							// start is zero as long as no key has been read.
+							if start != 0 && len(currentPath) == end-start {
 								same := true
 								// compare all elements
 								for j := 0; j < len(currentPath); j++ {
-- 
2.43.0


From 6755d721f69f9f1b3b82e62bb8c8e63499727594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 41/43] fix: Add, AddKeyValue and Insert check the bounds of
 broken documents

---
 inter_add.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/inter_add.go b/inter_add.go
index f12d63f..d5f252e 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -52,6 +52,10 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			return json, errObjectExpected()
 		}
 	}
+	// nothing but spaces.
+	if end == 0 {
+		return json, errBadJSON(0)
+	}
 	if json[start] == 123 && json[end-1] == 125 {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
@@ -126,6 +130,10 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 			return json, errArrayExpected()
 		}
 	}
+	// nothing but spaces.
+	if end == 0 {
+		return json, errBadJSON(0)
+	}
 	if json[start] == 91 && json[end-1] == 93 {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
@@ -153,6 +161,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	var start int
 	var end int
 	var err error
+	if len(json) < 2 {
+		return json, errBadJSON(0)
+	}
 	if len(path) == 0 {
 		for i := 0; i < len(json); i++ {
 			if !space(json[i]) {
@@ -186,6 +197,10 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 			return json, err
 		}
 	}
+	// nothing but spaces.
+	if end == 0 {
+		return json, errBadJSON(0)
+	}
 	if json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
 	}
@@ -200,7 +215,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[end] == 34 {
+	if end < len(json) && json[end] == 34 {
 		end++
 	}
 	var startEdge int
-- 
2.43.0


From 066afb32edede25721c77c524495f67ffe5a959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 42/43] fix: Set, Store and Delete check the bounds of broken
 documents

---
 inter_delete.go | 2 +-
 inter_set.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/inter_delete.go b/inter_delete.go
index c96ffd5..27a8e0d 100755
--- a/inter_delete.go
+++ b/inter_delete.go
@@ -21,7 +21,7 @@ func Delete(json []byte, path ...string) ([]byte, error) {
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[e] == 34 {
+	if e < len(json) && json[e] == 34 {
 		e++
 	}
 	var startEdge int
diff --git a/inter_set.go b/inter_set.go
index 7f8bc4c..5e1b947 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -16,7 +16,7 @@ func Set(json []byte, newValue []byte, path ...string) ([]byte, error) {
 	if err != nil {
 		return json, err
 	}
-	if json[start-1] == 34 && json[end] == 34 {
+	if json[start-1] == 34 && end < len(json) && json[end] == 34 {
 		return replace(json, newValue, start-1, end+1), nil
 	}
 	return replace(json, newValue, start, end), nil
@@ -99,7 +99,7 @@ func Store(json []byte, key string, value []byte, path ...string) ([]byte, error
 		}
 		return json, err
 	}
-	if json[start-1] == 34 && json[end] == 34 {
+	if json[start-1] == 34 && end < len(json) && json[end] == 34 {
 		return replace(json, value, start-1, end+1), nil
 	}
 	return replace(json, value, start, end), nil
-- 
2.43.0


From f63945a90b1369ff0ab650e2ce4d0699c550ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 43/43] fix: SetKey names a duplicate name as the cause, not
 bad JSON

---
 inter_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_set.go b/inter_set.go
index 5e1b947..3bd3e2c 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -86,7 +86,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 		}
 		return json, err
 	}
-	return json, errBadJSON(keyStart)
+	return json, errKeyAlreadyExist(newKey)
 }
 
 // Store sets or adds a new value to the body
-- 
2.43.0

