From 1f30839d27aa2a87cb407c8c5ba121be2dc25401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 01/46] fix: key search must not leave the addressed object or
 step into scalars

---
 inter_core.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 1ef3958..0219c5d 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -265,6 +265,13 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										keyStart = start
 										break
 									} else {
+										// only an object or an array can have inner values.
+										for offset < len(json) && space(json[offset]) {
+											offset++
+										}
+										if offset == len(json) || (json[offset] != 91 && json[offset] != 123) {
+											return -1, -1, -1, errKeyNotFound(path[k+1])
+										}
 										continue
 									}
 								}
@@ -314,7 +321,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										continue
 									}
 									if curr == 93 || curr == 125 {
-										if innerLevel < k+1 {
+										// closing brace of the addressed object, key is not in it
+										if innerLevel < k+2 {
 											return -1, -1, -1, errKeyNotFound(currentPath)
 										}
 										innerLevel--
@@ -374,7 +382,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 					}
 					// Close brace
 					if curr == 93 || curr == 125 {
-						if level < k+1 {
+						// closing brace of the addressed object, key is not in it
+						if level < k+2 {
 							return -1, -1, -1, errKeyNotFound(currentPath)
 						}
 						level--
-- 
2.43.0


From d7cb4e5e68fe56343e64b43283142cbad9ad0b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 02/46] fix: the zeroth index of an empty array does not exist

---
 inter_core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inter_core.go b/inter_core.go
index 0219c5d..1e33c36 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -78,6 +78,10 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 							if k != len(path)-1 {
 								return -1, -1, -1, errIndexOutOfRange()
 							}
+							// there is no zeroth element of an empty array
+							if curr == 93 {
+								return -1, -1, -1, errEmptyArray()
+							}
 							break
 						}
 					}
-- 
2.43.0


From 2977bfaf674dbcaa629f53b324cd49adde38212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 03/46] fix: Length, GetMap and IterateArray must not answer
 paths below an empty root

---
 inter_get.go  | 2 +-
 inter_iter.go | 2 +-
 others.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 369126f..97c2245 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -591,7 +591,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 
 // GetMap Gets all keys and values pair with string to string map.
 func GetMap(json []byte, path ...string) (map[string]string, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return nil, nil
 	}
 	start, end, err := getStartEnd(json, path...)
diff --git a/inter_iter.go b/inter_iter.go
index 0b3138b..cb5111b 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -8,7 +8,7 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 	case 0, 1:
 		return errBadJSON(0)
 	case 2:
-		if string(json) == "[]" {
+		if string(json) == "[]" && len(path) == 0 {
 			return nil
 		}
 		return errBadJSON(0)
diff --git a/others.go b/others.go
index f35b3c2..67e17f7 100755
--- a/others.go
+++ b/others.go
@@ -3,7 +3,7 @@ package jin
 // Length function gives the length of any array or object
 // that path has pointed.
 func Length(json []byte, path ...string) (int, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return 0, nil
 	}
 	start, end, err := getStartEnd(json, path...)
-- 
2.43.0


From ba5930807f02bd1f703217333aca710e38ce15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 04/46] fix: GetMap below a path and Length of short root
 arrays, end offset is exclusive

---
 inter_get.go | 4 ++--
 utils.go     | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 97c2245..09a5b3c 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -599,7 +599,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		return nil, err
 	}
 	mainMap := make(map[string]string)
-	if json[start] == 123 && json[end] == 125 {
+	if json[start] == 123 && json[end-1] == 125 {
 		err = IterateKeyValue(json, func(key, val []byte) (bool, error) {
 			mainMap[string(key)] = string(val)
 			return true, nil
@@ -609,7 +609,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		}
 		return mainMap, nil
 	}
-	if json[start] == 91 && json[end] == 93 {
+	if json[start] == 91 && json[end-1] == 93 {
 		count := 0
 		err = IterateArray(json, func(val []byte) (bool, error) {
 			mainMap[strconv.Itoa(count)] = string(val)
diff --git a/utils.go b/utils.go
index 09ff21e..885d074 100755
--- a/utils.go
+++ b/utils.go
@@ -178,6 +178,8 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 			end--
 			continue
 		}
+		// end is exclusive, same as the end that core returns
+		end++
 	}
 	return start, end, nil
 }
-- 
2.43.0


From b6207c96ac12536568f4dfa5805a693d4bacae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 05/46] fix: IsObject must be false for arrays

---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index fd8015a..512dbba 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -15,7 +15,7 @@ const (
 // If path points to an object it will return true, otherwise it will return false.
 // In this instance 'object' means everything that has starts and ends with curly brace.
 func IsObject(json []byte, path ...string) (bool, error) {
-	state, _, err := typeControlCore(json, []byte{91, 123}, true, path...)
+	state, _, err := typeControlCore(json, []byte{123}, true, path...)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 2918fcf78d66d3f7116ad03712018c7e639bb408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 06/46] fix: GetType of numbers out of the float64 range is
 number

---
 inter_type.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/inter_type.go b/inter_type.go
index 512dbba..afc7af4 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -1,6 +1,9 @@
 package jin
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+)
 
 const (
 	TypeArray   string = "array"
@@ -74,7 +77,7 @@ func GetType(json []byte, path ...string) (string, error) {
 		return TypeNumber, nil
 	}
 	_, err = strconv.ParseFloat(val, 64)
-	if err == nil {
+	if err == nil || errors.Is(err, strconv.ErrRange) {
 		return TypeNumber, nil
 	}
 	return TypeString, nil
-- 
2.43.0


From beb0c9cfc5074286f60430958cc3a8b5d80c104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 07/46] fix: IsEmpty of containers with one character in them
 and of strings that look like containers

---
 inter_type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index afc7af4..fa1eb3e 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -116,13 +116,17 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		}
 		end--
 	}
+	// content of a string is not an array or an object
+	if start > 0 && json[start-1] == 34 {
+		return false, errObjectExpected()
+	}
 	braceStart := json[start]
 	braceEnd := json[end]
 	if braceStart == 91 || braceStart == 123 {
 		if braceStart+2 != braceEnd {
 			return false, errBadJSON(end)
 		}
-		for i := start + 1; i < end-1; i++ {
+		for i := start + 1; i < end; i++ {
 			if !space(json[i]) {
 				return false, nil
 			}
-- 
2.43.0


From ddef7876f52af7398e05175e2e2288aab249633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 08/46] fix: trimming of value strings must remove all
 surrounding spaces and accept blank ones

---
 utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index 885d074..bdefb3f 100755
--- a/utils.go
+++ b/utils.go
@@ -104,14 +104,14 @@ func isInt(val string) bool {
 func cleanValueString(str string) string {
 	start := 0
 	lens := len(str)
-	for space(str[start]) && start < lens-1 {
+	for start < lens && space(str[start]) {
 		start++
 	}
 	end := lens - 1
-	for space(str[end]) && end > 1 {
+	for end > start && space(str[end]) {
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if start < end && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
-- 
2.43.0


From fc8236456edb351393624ca64e7029a9efdd6539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 09/46] fix: cleanValue must not slice out of order on a lone
 quote

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index bdefb3f..9c8a3fa 100755
--- a/utils.go
+++ b/utils.go
@@ -137,7 +137,7 @@ func cleanValue(str []byte) []byte {
 		}
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if start < end && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
-- 
2.43.0


From a4440a2bdf45b2727cba1d98735dbd602e59e380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 10/46] fix: typed array reads of empty arrays give empty
 slices

---
 inter_get.go |  9 +++++++++
 others.go    |  2 +-
 parse_get.go |  9 +++++++++
 utils.go     | 10 ++++++++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/inter_get.go b/inter_get.go
index 09a5b3c..98abb6d 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -113,6 +113,9 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 	}
 	if val[0] == 91 && val[lena-1] == 93 {
 		newArray := make([]int, 0, 16)
+		if blank(val[1 : lena-1]) {
+			return newArray, nil
+		}
 		start := 1
 		inQuote := false
 		level := 0
@@ -179,6 +182,9 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 	}
 	if val[0] == 91 && val[lena-1] == 93 {
 		newArray := make([]float64, 0, 16)
+		if blank(val[1 : lena-1]) {
+			return newArray, nil
+		}
 		start := 1
 		inQuote := false
 		level := 0
@@ -245,6 +251,9 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 	}
 	if val[0] == 91 && val[lena-1] == 93 {
 		newArray := make([]bool, 0, 16)
+		if blank(val[1 : lena-1]) {
+			return newArray, nil
+		}
 		start := 1
 		inQuote := false
 		level := 0
diff --git a/others.go b/others.go
index 67e17f7..a1cf7b0 100755
--- a/others.go
+++ b/others.go
@@ -187,7 +187,7 @@ func ParseArray(arr string) []string {
 		return []string{}
 	}
 	if arr[0] == 91 && arr[len(arr)-1] == 93 {
-		if len(arr) == 2 {
+		if blank(arr[1 : len(arr)-1]) {
 			return []string{}
 		}
 		newArray := make([]string, 0, 16)
diff --git a/parse_get.go b/parse_get.go
index a0027a0..8b7bdf2 100755
--- a/parse_get.go
+++ b/parse_get.go
@@ -138,6 +138,9 @@ func (p *Parser) GetIntArray(path ...string) ([]int, error) {
 	}
 	if val[0] == 91 && val[lena-1] == 93 {
 		newArray := make([]int, 0, 16)
+		if blank(val[1 : lena-1]) {
+			return newArray, nil
+		}
 		start := 1
 		inQuote := false
 		level := 0
@@ -204,6 +207,9 @@ func (p *Parser) GetFloatArray(path ...string) ([]float64, error) {
 	}
 	if val[0] == 91 && val[lena-1] == 93 {
 		newArray := make([]float64, 0, 16)
+		if blank(val[1 : lena-1]) {
+			return newArray, nil
+		}
 		start := 1
 		inQuote := false
 		level := 0
@@ -270,6 +276,9 @@ func (p *Parser) GetBoolArray(path ...string) ([]bool, error) {
 	}
 	if val[0] == 91 && val[lena-1] == 93 {
 		newArray := make([]bool, 0, 16)
+		if blank(val[1 : lena-1]) {
+			return newArray, nil
+		}
 		start := 1
 		inQuote := false
 		level := 0
diff --git a/utils.go b/utils.go
index 9c8a3fa..d3d7a4b 100755
--- a/utils.go
+++ b/utils.go
@@ -33,6 +33,16 @@ func space(curr byte) bool {
 	return false
 }
 
+// blank reports whether the string has nothing but spaces in it.
+func blank(str string) bool {
+	for i := 0; i < len(str); i++ {
+		if !space(str[i]) {
+			return false
+		}
+	}
+	return true
+}
+
 func createTabs(n int) []byte {
 	res := make([]byte, n)
 	for i := range res {
-- 
2.43.0


From 84fbb0b8b0d858b2b16ed5d7607221c5b6c79d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 11/46] fix: GetValues and GetKeysValues of nested empty
 objects have no values

---
 inter_get.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index 98abb6d..af0ea02 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -470,6 +470,10 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						// empty object
+						if json[start] == 123 && len(values) == 0 && blank(string(json[start+1:i])) {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
@@ -569,6 +573,10 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						// empty object
+						if json[start] == 123 && len(values) == 0 && blank(string(json[start+1:i])) {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
-- 
2.43.0


From e5b77b538e31bf9608b1a4e57e0b8577e8dcb9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 12/46] fix: iterators must not call back for empty containers
 and must return the error of the last callback

---
 inter_iter.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/inter_iter.go b/inter_iter.go
index cb5111b..3680546 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -77,6 +77,10 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 				}
 				if curr == 93 {
 					if level == 0 {
+						// empty array
+						if blank(string(json[start:i])) {
+							return nil
+						}
 						_, innerError := callback(cleanValue(json[start:i]))
 						return innerError
 					}
@@ -176,6 +180,10 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 				if curr == 93 || curr == 125 {
 					if curr == 125 {
 						if level == 1 {
+							// empty object
+							if json[start] == 123 && key == nil && blank(string(json[start+1:i])) {
+								return nil
+							}
 							for j := start; j < i; j++ {
 								if !space(json[j]) {
 									start = j
@@ -189,11 +197,11 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								}
 							}
 							if json[start] == 34 && json[end] == 34 {
-								callback(key, json[start+1:end])
-								return nil
+								_, innerError := callback(key, json[start+1:end])
+								return innerError
 							}
-							callback(key, json[start:end+1])
-							return nil
+							_, innerError := callback(key, json[start:end+1])
+							return innerError
 						}
 					}
 					if level == 1 {
-- 
2.43.0


From 5f611b488bb7604cbddaf164586e3d314d451ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 13/46] fix: Walk must stop when the callback says so and must
 not share path memory between leaves

---
 walk.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/walk.go b/walk.go
index 2c13fbd..12ee08f 100644
--- a/walk.go
+++ b/walk.go
@@ -1,15 +1,24 @@
 package jin
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+)
+
+// errStopWalk ends a walk early, it never leaves this package.
+var errStopWalk = errors.New("stop walk")
 
 func (j *JO) Walk(callback func(k string, v []byte, p []string) (bool, error)) error {
-	path := []string{}
-	return walk(j.body, path, callback)
+	return Walk(j.body, callback)
 }
 
 func Walk(json []byte, callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(json, path, callback)
+	err := walk(json, path, callback)
+	if err == errStopWalk {
+		return nil
+	}
+	return err
 }
 
 func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) error {
@@ -20,7 +29,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	switch t {
 	case TypeObject:
 		err := IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
-			err = walk(json, append(path, string(keyBytes)), callback)
+			err = walk(json, append(path[:len(path):len(path)], string(keyBytes)), callback)
 			if err != nil {
 				return false, err
 			}
@@ -32,7 +41,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	case TypeArray:
 		i := 0
 		err := IterateArray(json, func(_ []byte) (bool, error) {
-			err = walk(json, append(path, strconv.Itoa(i)), callback)
+			err = walk(json, append(path[:len(path):len(path)], strconv.Itoa(i)), callback)
 			if err != nil {
 				return false, err
 			}
@@ -56,7 +65,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 			return err
 		}
 		if !keepGoing {
-			return nil
+			return errStopWalk
 		}
 	}
 	return nil
-- 
2.43.0


From cda38b5ee6d1cb881684a2ea58307ff50bd84b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 14/46] fix: IterateKeyValue must trim spaces after one
 character values

---
 inter_iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_iter.go b/inter_iter.go
index 3680546..c604d62 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -219,7 +219,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								break
 							}
 						}
-						for j := i - 1; j > start; j-- {
+						for j := i - 1; j > start-1; j-- {
 							if !space(json[j]) {
 								end = j
 								break
-- 
2.43.0


From 1a49988c9b62c4b52b44ba845a53dafbb37ea77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 15/46] fix: integer adds must write decimal digits

---
 inter_add.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 5eb2cad..5a21e61 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -253,7 +253,7 @@ func AddKeyValueUint(json []byte, key string, value uint, path ...string) ([]byt
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueInt32 is a variation of AddKeyValue() func.
@@ -262,7 +262,7 @@ func AddKeyValueInt32(json []byte, key string, value int32, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddKeyValueInt64 is a variation of AddKeyValue() func.
@@ -271,7 +271,7 @@ func AddKeyValueInt64(json []byte, key string, value int64, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddKeyValueUint32 is a variation of AddKeyValue() func.
@@ -280,7 +280,7 @@ func AddKeyValueUint32(json []byte, key string, value uint32, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueUint64 is a variation of AddKeyValue() func.
@@ -289,7 +289,7 @@ func AddKeyValueUint64(json []byte, key string, value uint64, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddKeyValueFloat is a variation of AddKeyValue() func.
@@ -328,31 +328,31 @@ func AddInt(json []byte, value int, path ...string) ([]byte, error) {
 // AddInt32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt32(json []byte, value int32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddInt64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt64(json []byte, value int64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddUint is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint(json []byte, value uint, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint32(json []byte, value uint32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint64(json []byte, value uint64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddFloat is a variation of Add() func.
@@ -394,7 +394,7 @@ func InsertInt32(json []byte, index int, value int32, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // InsertInt64 is a variation of Insert() func.
@@ -403,7 +403,7 @@ func InsertInt64(json []byte, index int, value int64, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // InsertUint is a variation of Insert() func.
@@ -412,7 +412,7 @@ func InsertUint(json []byte, index int, value uint, path ...string) ([]byte, err
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint32 is a variation of Insert() func.
@@ -421,7 +421,7 @@ func InsertUint32(json []byte, index int, value uint32, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint64 is a variation of Insert() func.
@@ -430,7 +430,7 @@ func InsertUint64(json []byte, index int, value uint64, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // InsertFloat is a variation of Insert() func.
-- 
2.43.0


From d9ce05ab9917bfadf84004df812a0a03c8e30bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 16/46] fix: empty and blank documents are bad json, not a
 panic

---
 inter_core.go | 12 ++++++------
 inter_get.go  | 15 ++++++++++++---
 inter_iter.go |  5 ++++-
 inter_type.go |  4 ++--
 parse_core.go |  2 +-
 utils.go      |  2 +-
 6 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 1e33c36..4e82eb4 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -33,7 +33,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 	// trim spaces of start
 	for space(json[offset]) {
 		// json length overflow control
-		if offset > len(json)-1 {
+		if offset > len(json)-2 {
 			return -1, -1, -1, errBadJSON(offset)
 		}
 		offset++
@@ -410,14 +410,14 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 		return -1, -1, -1, errBadJSON(0)
 	}
 	// skip spaces from top.
-	for space(json[offset]) {
-		// json length overflow control
-		if offset > len(json)-1 {
-			return -1, -1, -1, errBadJSON(offset)
-		}
+	for offset < len(json) && space(json[offset]) {
 		offset++
 		continue
 	}
+	// json length overflow control
+	if offset > len(json)-1 {
+		return -1, -1, -1, errBadJSON(offset)
+	}
 	if justStart {
 		return keyStart, offset, 0, nil
 	}
diff --git a/inter_get.go b/inter_get.go
index af0ea02..c9af45f 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -320,6 +320,9 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 // Gets all keys that path has pointed.
 func GetKeys(json []byte, path ...string) ([]string, error) {
 	var keys []string
+	if len(json) == 0 {
+		return nil, errBadJSON(0)
+	}
 	if string(json) == "{}" {
 		return nil, errEmpty()
 	}
@@ -327,7 +330,7 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return nil, errBadJSON(start)
 			}
 			start++
@@ -410,6 +413,9 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 // Gets all values that path has pointed.
 func GetValues(json []byte, path ...string) ([]string, error) {
 	var values []string
+	if len(json) == 0 {
+		return nil, errBadJSON(0)
+	}
 	if string(json) == "{}" {
 		return nil, errEmpty()
 	}
@@ -417,7 +423,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return nil, errBadJSON(start)
 			}
 			start++
@@ -506,6 +512,9 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	var values []string
 	var keys []string
+	if len(json) == 0 {
+		return nil, nil, errBadJSON(0)
+	}
 	if string(json) == "{}" {
 		return nil, nil, errEmpty()
 	}
@@ -513,7 +522,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return nil, nil, errBadJSON(start)
 			}
 			start++
diff --git a/inter_iter.go b/inter_iter.go
index c604d62..b20fef1 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -110,6 +110,9 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 // It stripes quotation marks from string values befour return.
 // Path value can be left blank for access main JSON.
 func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), path ...string) error {
+	if len(json) == 0 {
+		return errBadJSON(0)
+	}
 	if string(json) == "{}" {
 		return errEmpty()
 	}
@@ -118,7 +121,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	var end int
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return errBadJSON(start)
 			}
 			start++
diff --git a/inter_type.go b/inter_type.go
index fa1eb3e..81a08e2 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -96,7 +96,7 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return false, errBadJSON(start)
 			}
 			start++
@@ -145,7 +145,7 @@ func typeControlCore(json []byte, control []byte, equal bool, path ...string) (b
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return false, -1, errBadJSON(start)
 			}
 			start++
diff --git a/parse_core.go b/parse_core.go
index 0dee1ff..93016d1 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -22,7 +22,7 @@ func pCore(json []byte, core *node) error {
 		isJSONChar[v] = true
 	}
 	for space(json[start]) {
-		if start > len(json)-1 {
+		if start > len(json)-2 {
 			return nil
 		}
 		start++
diff --git a/utils.go b/utils.go
index d3d7a4b..ed93501 100755
--- a/utils.go
+++ b/utils.go
@@ -174,7 +174,7 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 		}
 	} else {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start > len(json)-2 {
 				return -1, -1, errBadJSON(start)
 			}
 			start++
-- 
2.43.0


From 31a67869d5ed121465830e8e92a6b38807508056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 17/46] fix: edits of truncated documents must not read out of
 range

---
 inter_add.go      | 8 ++++----
 inter_delete.go   | 2 +-
 inter_set.go      | 4 ++--
 jin_object_add.go | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 5a21e61..073a2f3 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -48,7 +48,7 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			return json, err
 		}
 	}
-	if json[start] == 123 && json[end-1] == 125 {
+	if start < end && json[start] == 123 && json[end-1] == 125 {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
 			if !space(json[i]) {
@@ -118,7 +118,7 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 			return json, err
 		}
 	}
-	if json[start] == 91 && json[end-1] == 93 {
+	if start < end && json[start] == 91 && json[end-1] == 93 {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
 			if !space(json[i]) {
@@ -178,7 +178,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 			return json, err
 		}
 	}
-	if json[start] != 91 || json[end-1] != 93 {
+	if start >= end || json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
 	}
 	_, start, end, err = core(json, false, append(path, strconv.Itoa(index))...)
@@ -188,7 +188,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[end] == 34 {
+	if end < len(json) && json[end] == 34 {
 		end++
 	}
 	var startEdge int
diff --git a/inter_delete.go b/inter_delete.go
index c96ffd5..27a8e0d 100755
--- a/inter_delete.go
+++ b/inter_delete.go
@@ -21,7 +21,7 @@ func Delete(json []byte, path ...string) ([]byte, error) {
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[e] == 34 {
+	if e < len(json) && json[e] == 34 {
 		e++
 	}
 	var startEdge int
diff --git a/inter_set.go b/inter_set.go
index f32c914..6f20015 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -16,7 +16,7 @@ func Set(json []byte, newValue []byte, path ...string) ([]byte, error) {
 	if err != nil {
 		return json, err
 	}
-	if json[start-1] == 34 && json[end] == 34 {
+	if json[start-1] == 34 && end < len(json) && json[end] == 34 {
 		return replace(json, newValue, start-1, end+1), nil
 	}
 	return replace(json, newValue, start, end), nil
@@ -99,7 +99,7 @@ func Store(json []byte, key string, value []byte, path ...string) ([]byte, error
 		}
 		return json, err
 	}
-	if json[start-1] == 34 && json[end] == 34 {
+	if json[start-1] == 34 && end < len(json) && json[end] == 34 {
 		return replace(json, value, start-1, end+1), nil
 	}
 	return replace(json, value, start, end), nil
diff --git a/jin_object_add.go b/jin_object_add.go
index 49e602d..339284e 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -116,7 +116,7 @@ func (j *JO) Store(key string, value []byte, path ...string) error {
 		}
 		return err
 	}
-	if j.body[start-1] == 34 && j.body[end] == 34 {
+	if j.body[start-1] == 34 && end < len(j.body) && j.body[end] == 34 {
 		j.body = replace(j.body, value, start-1, end+1)
 		return nil
 	}
-- 
2.43.0


From 0648ac647ccd2f347ec6ac177482c9920f315e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 18/46] fix: calls must not write to the spare capacity of the
 caller's path

---
 inter_add.go      | 4 ++--
 inter_get.go      | 4 ++--
 inter_set.go      | 2 +-
 jin_object_add.go | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 073a2f3..fa61a2d 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -60,7 +60,7 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			json = replace(json, val, end-1, end-1)
 			return json, nil
 		}
-		path = append(path, key)
+		path = append(path[:len(path):len(path)], key)
 		_, _, _, err = core(json, false, path...)
 		if err != nil {
 			if ErrEqual(err, ErrCodeKeyNotFound) {
@@ -181,7 +181,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if start >= end || json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
 	}
-	_, start, end, err = core(json, false, append(path, strconv.Itoa(index))...)
+	_, start, end, err = core(json, false, append(path[:len(path):len(path)], strconv.Itoa(index))...)
 	if err != nil {
 		return json, err
 	}
diff --git a/inter_get.go b/inter_get.go
index c9af45f..ba929d6 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -657,7 +657,7 @@ func GetAll(json []byte, keys []string, path ...string) ([]string, error) {
 	var val string
 	results := make([]string, 0, len(keys))
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, append(path[:len(path):len(path)], k)...)
 		if err != nil {
 			return nil, err
 		}
@@ -673,7 +673,7 @@ func GetAllMap(json []byte, keys []string, path ...string) (map[string]string, e
 	var val string
 	results := make(map[string]string)
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, append(path[:len(path):len(path)], k)...)
 		if err != nil {
 			return nil, err
 		}
diff --git a/inter_set.go b/inter_set.go
index 6f20015..910f9dc 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -92,7 +92,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 // Store sets or adds a new value to the body
 // like a real json store event
 func Store(json []byte, key string, value []byte, path ...string) ([]byte, error) {
-	_, start, end, err := core(json, false, append(path, key)...)
+	_, start, end, err := core(json, false, append(path[:len(path):len(path)], key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			return AddKeyValue(json, key, value, path...)
diff --git a/jin_object_add.go b/jin_object_add.go
index 339284e..2f7fa13 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -108,7 +108,7 @@ func (j *JO) InsertBool(index int, value bool, path ...string) error {
 }
 
 func (j *JO) Store(key string, value []byte, path ...string) error {
-	_, start, end, err := core(j.body, false, append(path, key)...)
+	_, start, end, err := core(j.body, false, append(path[:len(path):len(path)], key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			j.body, err = AddKeyValue(j.body, key, value, path...)
-- 
2.43.0


From 560149687e81f3304be6b85e6f21be6358c1a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 19/46] fix: Insert before the last element must put the comma
 where the previous one is

---
 inter_add.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_add.go b/inter_add.go
index fa61a2d..594819a 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -223,7 +223,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 		val := make([]byte, 0, len(value)+1)
 		val = append(val, 44)
 		val = append(val, value...)
-		json = replace(json, val, start-1, start-1)
+		json = replace(json, val, startEdge, startEdge)
 		return json, nil
 	}
 	return json, errBadJSON(start)
-- 
2.43.0


From 47874fbaa76071d526b7a9199dd84c621f5b6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 20/46] fix: refused AddKeyValueString and InsertString must
 return the document

---
 inter_add.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 594819a..a54fa1b 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -233,7 +233,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 // Type of new value must be a string.
 func AddKeyValueString(json []byte, key, value string, path ...string) ([]byte, error) {
 	if len(key) == 0 {
-		return nil, errNullKey()
+		return json, errNullKey()
 	}
 	return AddKeyValue(json, key, []byte(formatType(value)), path...)
 }
@@ -374,7 +374,7 @@ func AddBool(json []byte, value bool, path ...string) ([]byte, error) {
 // Type of new value must be an string.
 func InsertString(json []byte, index int, value string, path ...string) ([]byte, error) {
 	if index < 0 {
-		return nil, errIndexOutOfRange()
+		return json, errIndexOutOfRange()
 	}
 	return Insert(json, index, []byte(formatType(value)), path...)
 }
-- 
2.43.0


From ed5ca3f9719766b987e83401f270ccdcf1ba25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 21/46] fix: adds and inserts must refuse strings that look
 like containers

---
 inter_add.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/inter_add.go b/inter_add.go
index a54fa1b..35be27f 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -47,6 +47,10 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 		if err != nil {
 			return json, err
 		}
+		// content of a string is not an object
+		if json[start-1] == 34 {
+			return json, errObjectExpected()
+		}
 	}
 	if start < end && json[start] == 123 && json[end-1] == 125 {
 		empty := true
@@ -117,6 +121,10 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 		if err != nil {
 			return json, err
 		}
+		// content of a string is not an array
+		if json[start-1] == 34 {
+			return json, errArrayExpected()
+		}
 	}
 	if start < end && json[start] == 91 && json[end-1] == 93 {
 		empty := true
@@ -177,6 +185,10 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 		if err != nil {
 			return json, err
 		}
+		// content of a string is not an array
+		if json[start-1] == 34 {
+			return json, errArrayExpected()
+		}
 	}
 	if start >= end || json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
-- 
2.43.0


From 5b5862c7093d0d8dc2fbcf5e811106d5b545a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 22/46] fix: StoreString of the JSON object must write a string

---
 jin_object_add.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jin_object_add.go b/jin_object_add.go
index 2f7fa13..efacd2f 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -127,7 +127,7 @@ func (j *JO) Store(key string, value []byte, path ...string) error {
 // StoreString jin_object method for same function name with interpreter
 func (j *JO) StoreString(key string, value string, path ...string) error {
 	var err error
-	j.body, err = Store(j.body, key, []byte(value), path...)
+	j.body, err = StoreString(j.body, key, value, path...)
 	return err
 }
 
-- 
2.43.0


From 5e203019d4f65471a5dca8252575459579ce76b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 23/46] fix: texts that are not JSON numbers must be stored as
 strings

---
 utils.go | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index ed93501..b6c3d76 100755
--- a/utils.go
+++ b/utils.go
@@ -69,12 +69,12 @@ func formatType(val string) string {
 		return val
 	}
 	if isInt(val) {
-		if val[0] == 48 && len(val) > 1 {
+		if !isNumber(val) {
 			return `"` + val + `"`
 		}
 		return val
 	}
-	if isFloat(val) {
+	if isFloat(val) && isNumber(val) {
 		return val
 	}
 	if val == "null" {
@@ -111,6 +111,45 @@ func isInt(val string) bool {
 	return err == nil
 }
 
+// isNumber reports whether the text is a number as JSON writes it.
+func isNumber(val string) bool {
+	i := 0
+	digits := func() bool {
+		start := i
+		for i < len(val) && val[i] >= 48 && val[i] <= 57 {
+			i++
+		}
+		return i > start
+	}
+	// 45 = -
+	if i < len(val) && val[i] == 45 {
+		i++
+	}
+	// no leading zeros
+	start := i
+	if !digits() || (val[start] == 48 && i > start+1) {
+		return false
+	}
+	// 46 = .
+	if i < len(val) && val[i] == 46 {
+		i++
+		if !digits() {
+			return false
+		}
+	}
+	// 69 = E, 101 = e, 43 = +
+	if i < len(val) && (val[i] == 69 || val[i] == 101) {
+		i++
+		if i < len(val) && (val[i] == 43 || val[i] == 45) {
+			i++
+		}
+		if !digits() {
+			return false
+		}
+	}
+	return i == len(val)
+}
+
 func cleanValueString(str string) string {
 	start := 0
 	lens := len(str)
-- 
2.43.0


From d508aeb2af5b700c6e4a63ea28536d437b98aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 24/46] fix: builders of empty lists must make empty arrays and
 objects

---
 make.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/make.go b/make.go
index 15dd856..94238c4 100755
--- a/make.go
+++ b/make.go
@@ -169,7 +169,7 @@ func MakeEmptyArray() []byte {
 // Do not use any slice/array for parameter.
 // It will accept this kind types but won't be able to make valid representation for use!
 func MakeArray(elements ...interface{}) []byte {
-	if elements == nil {
+	if len(elements) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -187,7 +187,7 @@ func MakeArray(elements ...interface{}) []byte {
 // Parameter type must be slice of string.
 // For more information look MakeArray() function.
 func MakeArrayString(values []string) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte(`[]`)
 	}
 	js := make([]byte, 0, 128)
@@ -205,7 +205,7 @@ func MakeArrayString(values []string) []byte {
 // Parameter type must be slice of integer.
 // For more information look MakeArray() function.
 func MakeArrayInt(values []int) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -223,7 +223,7 @@ func MakeArrayInt(values []int) []byte {
 // Parameter type must be slice of boolean.
 // For more information look MakeArray() function.
 func MakeArrayBool(values []bool) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -249,7 +249,7 @@ func MakeArrayBool(values []bool) []byte {
 // Parameter type must be slice of float64.
 // For more information look MakeArray() function.
 func MakeArrayFloat(values []float64) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -279,7 +279,7 @@ func MakeArrayFloat(values []float64) []byte {
 // Parameter type must be slice of byte.
 // For more information look MakeArray() function.
 func MakeArrayBytes(values ...[]byte) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -305,7 +305,7 @@ func MakeJson(keys []string, values []interface{}) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -328,7 +328,7 @@ func MakeJsonString(keys, values []string) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -348,7 +348,7 @@ func MakeJsonString(keys, values []string) []byte {
 
 // MakeJsonWithMap creates an JSON formation from given string-string-map, and returns them as byte slice.
 func MakeJsonWithMap(json map[string]string) []byte {
-	if json == nil {
+	if len(json) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
-- 
2.43.0


From 6be165d013d11d15c6b569a02cca2f63ec99a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 25/46] fix: MakeArrayFloat must write the numbers it is given

---
 make.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/make.go b/make.go
index 94238c4..802193a 100755
--- a/make.go
+++ b/make.go
@@ -255,19 +255,7 @@ func MakeArrayFloat(values []float64) []byte {
 	js := make([]byte, 0, 128)
 	js = append(js, 91)
 	for _, v := range values {
-		num := strconv.FormatFloat(v, 'f', -1, 64)
-		start := 0
-		for i := 0; i < len(num); i++ {
-			if num[i] == 'e' {
-				start = i
-			}
-		}
-		exp, _ := strconv.Atoi(num[start+2:])
-		if exp == 0 {
-			js = append(js, []byte(num[:start])...)
-		} else {
-			js = append(js, []byte(num)...)
-		}
+		js = append(js, []byte(strconv.FormatFloat(v, 'f', -1, 64))...)
 		js = append(js, 44)
 	}
 	js = js[:len(js)-1]
-- 
2.43.0


From 5d7e793d8a0654f6f7e718ef15340370a0a7a740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 26/46] fix: Scheme.Add must not write to key lists handed in
 or out before

---
 make.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make.go b/make.go
index 802193a..0de36c2 100755
--- a/make.go
+++ b/make.go
@@ -115,7 +115,7 @@ func (s *Scheme) Add(key string) bool {
 			return false
 		}
 	}
-	s.keys = append(s.keys, key)
+	s.keys = append(s.keys[:len(s.keys):len(s.keys)], key)
 	return true
 }
 
-- 
2.43.0


From 96055aaca89f5f5011ab49bea3d6b9661c82597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 27/46] fix: MutateJson and MutateJsonAbs must keep the text of
 the values

---
 make.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/make.go b/make.go
index 0de36c2..fd21756 100755
--- a/make.go
+++ b/make.go
@@ -37,14 +37,16 @@ func (s *Scheme) MakeJsonString(values ...string) []byte {
 func (s *Scheme) MutateJson(json []byte) ([]byte, error) {
 	newJson := []byte(`{}`)
 	var err, err2 error
-	var val string
+	var val []byte
 	for _, k := range s.keys {
-		val, err = GetString(json, k)
-		val = formatType(val)
-		newJson, err2 = AddKeyValueString(newJson, k, val)
+		val, err = getText(json, k)
+		if err != nil {
+			val = []byte(`""`)
+		}
+		newJson, err2 = AddKeyValue(newJson, k, val)
 		if err == nil {
 			if err2 != nil {
-				return nil, err
+				return nil, err2
 			}
 		}
 	}
@@ -55,14 +57,13 @@ func (s *Scheme) MutateJson(json []byte) ([]byte, error) {
 func (s *Scheme) MutateJsonAbs(json []byte) ([]byte, error) {
 	newJson := []byte(`{}`)
 	var err error
-	var val string
+	var val []byte
 	for _, k := range s.keys {
-		val, err = GetString(json, k)
+		val, err = getText(json, k)
 		if err != nil {
 			return nil, err
 		}
-		val = formatType(val)
-		newJson, err = AddKeyValueString(newJson, k, val)
+		newJson, err = AddKeyValue(newJson, k, val)
 		if err != nil {
 			return nil, err
 		}
@@ -70,6 +71,18 @@ func (s *Scheme) MutateJsonAbs(json []byte) ([]byte, error) {
 	return newJson, nil
 }
 
+// getText returns the text of a member as it stands in the json, quotes included.
+func getText(json []byte, key string) ([]byte, error) {
+	_, start, end, err := core(json, false, key)
+	if err != nil {
+		return nil, err
+	}
+	if json[start-1] == 34 {
+		return json[start-1 : end+1], nil
+	}
+	return json[start:end], nil
+}
+
 // Check checks the json is fitting the scheme or not
 func (s *Scheme) Check(json []byte) bool {
 	for _, k := range s.keys {
-- 
2.43.0


From f8398925e748c76d773c4c4bc281a1101fa7406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 28/46] fix: Indent must see the end of strings that end with
 an escaped backslash

---
 others.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/others.go b/others.go
index a1cf7b0..721bd5d 100755
--- a/others.go
+++ b/others.go
@@ -106,11 +106,16 @@ func Indent(json []byte) []byte {
 	level := 0
 	for i := 0; i < len(json); i++ {
 		curr := json[i]
-		if curr == 34 {
+		if curr == 92 {
 			newJSON = append(newJSON, curr)
-			if json[i-1] == 92 {
-				continue
+			if i+1 < len(json) {
+				newJSON = append(newJSON, json[i+1])
 			}
+			i++
+			continue
+		}
+		if curr == 34 {
+			newJSON = append(newJSON, curr)
 			inQuote = !inQuote
 			continue
 		}
-- 
2.43.0


From c0ecf8655eb269299130aae714848266489fb6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 29/46] fix: Indent of unbalanced documents must not panic

---
 utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils.go b/utils.go
index b6c3d76..77d09bc 100755
--- a/utils.go
+++ b/utils.go
@@ -44,6 +44,10 @@ func blank(str string) bool {
 }
 
 func createTabs(n int) []byte {
+	// more closing braces than opening ones
+	if n < 0 {
+		n = 0
+	}
 	res := make([]byte, n)
 	for i := range res {
 		res[i] = 9
-- 
2.43.0


From fa396a14eefc87af1501bb670791b3f191e0ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 30/46] fix: Parse must not lose the only element of an array

---
 parse_core.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse_core.go b/parse_core.go
index 93016d1..fe782f3 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -87,6 +87,12 @@ func pCore(json []byte, core *node) error {
 					newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
 					core.down = append(core.down, newNode)
 					valStart = i + 1
+				case 91:
+					// only one element and it is not a container
+					if !blank(string(json[valStart:i])) {
+						newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
+						core.down = append(core.down, newNode)
+					}
 				}
 				core.value = json[braceList.pop() : i+1]
 				indexList.pop()
-- 
2.43.0


From 9c9a2ac68f73235baf12353bd715a23457ccf674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 31/46] fix: Parse must refuse unbalanced documents instead of
 panicking

---
 parse_core.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parse_core.go b/parse_core.go
index fe782f3..720b1cb 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -79,6 +79,10 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 93, 125:
+				// closing brace without an opening one
+				if braceList.index == 0 {
+					return errBadJSON(i)
+				}
 				switch last {
 				case 58:
 					newNode := &node{up: core, label: byteArrayToString(key), value: json[valStart:i]}
@@ -120,5 +124,9 @@ func pCore(json []byte, core *node) error {
 			}
 		}
 	}
+	// opening brace without a closing one
+	if braceList.index != 0 {
+		return errBadJSON(lenj)
+	}
 	return nil
 }
-- 
2.43.0


From de4df51d92b8f1fa2a60b355f0c7710afdf2a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 32/46] fix: Parser.Set must replace the nodes below the value
 too and keep its own copy

---
 parse_set.go   | 38 ++++++++++++++------------------------
 parse_utils.go | 18 ++++++++++++++++++
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/parse_set.go b/parse_set.go
index d257432..43ffb6a 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -8,7 +8,6 @@ import "strconv"
 // otherwise it will provide an error message.
 func (p *Parser) Set(newVal []byte, path ...string) error {
 	lenp := len(path)
-	lenv := len(newVal)
 	var curr *node
 	var err error
 	if lenp == 0 {
@@ -18,35 +17,26 @@ func (p *Parser) Set(newVal []byte, path ...string) error {
 	if err != nil {
 		return err
 	}
-	if lenv >= 2 {
-		if newVal[0] == 91 || newVal[0] == 123 {
-			newCore := createNode(nil)
-			pCore(newVal, newCore)
-			newCore.label = curr.label
-			newCore.up = curr.up
-			index := curr.getIndex()
-			curr.up.down[index] = newCore
-			newCore.value = newVal
-			p.json, _ = Set(p.json, newVal, path...)
-			for i := 0; i < lenp-1; i++ {
-				newCore = newCore.up
-				newCore.value, err = Get(p.json, path[:lenp-1-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
+	newCore, err := makeNode(curr.label, newVal)
+	if err != nil {
+		return err
 	}
-	curr.value = newVal
-	p.json, _ = Set(p.json, newVal, path...)
+	json, err := Set(p.json, newVal, path...)
+	if err != nil {
+		return err
+	}
+	p.json = json
+	newCore.up = curr.up
+	index := curr.getIndex()
+	curr.up.down[index] = newCore
 	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-1-i]...)
+		newCore = newCore.up
+		newCore.value, err = Get(p.json, path[:lenp-1-i]...)
 		if err != nil {
 			return err
 		}
 	}
+	p.core.value = cleanValue(p.json)
 	return nil
 }
 
diff --git a/parse_utils.go b/parse_utils.go
index 0bdd206..29f695a 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -25,6 +25,24 @@ func createNode(up *node) *node {
 	return &Node
 }
 
+// makeNode creates a node from a new value with all the nodes under it.
+// It does not keep the memory of the new value.
+func makeNode(label string, newVal []byte) (*node, error) {
+	value := append([]byte{}, newVal...)
+	newNode := createNode(nil)
+	err := pCore(value, newNode)
+	if err != nil {
+		return nil, err
+	}
+	if len(newNode.down) != 0 {
+		newNode = newNode.down[0]
+	} else {
+		newNode.value = value
+	}
+	newNode.label = label
+	return newNode, nil
+}
+
 func packKeyValue(label string, value []byte) []byte {
 	byteOutput := make([]byte, 0, 16)
 	byteOutput = append(byteOutput, 34)
-- 
2.43.0


From 172a28c8317148a71d3d42cf696bc8bd91d60b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 33/46] fix: Parser.SetString must quote every text that is not
 quoted, the empty one too

---
 parse_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse_set.go b/parse_set.go
index 43ffb6a..1e31e27 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -43,7 +43,7 @@ func (p *Parser) Set(newVal []byte, path ...string) error {
 // SetString is a variation of Set() func.
 // SetString takes the set value as string.
 func (p *Parser) SetString(newValue string, path ...string) error {
-	if newValue[0] != 34 && newValue[len(newValue)-1] != 34 {
+	if len(newValue) < 2 || newValue[0] != 34 || newValue[len(newValue)-1] != 34 {
 		return p.Set([]byte(`"`+newValue+`"`), path...)
 	}
 	return p.Set([]byte(newValue), path...)
-- 
2.43.0


From 09fcf0a486f3e9bcbb58124100122661a4c3c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 34/46] fix: Parser.SetKey must refuse what SetKey refuses

---
 parse_set.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parse_set.go b/parse_set.go
index 1e31e27..e13fbd1 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -94,14 +94,19 @@ func (p *Parser) SetKey(newKey string, path ...string) error {
 			return errKeyAlreadyExist(newKey)
 		}
 	}
+	json, err := SetKey(p.json, newKey, path...)
+	if err != nil {
+		return err
+	}
+	p.json = json
 	curr.label = newKey
-	p.json, _ = SetKey(p.json, newKey, path...)
 	for i := 0; i < lenp-1; i++ {
 		curr = curr.up
-		curr.value, _ = Get(p.json, path[:lenp-1-i]...)
+		curr.value, err = Get(p.json, path[:lenp-1-i]...)
 		if err != nil {
 			return err
 		}
 	}
+	p.core.value = cleanValue(p.json)
 	return nil
 }
-- 
2.43.0


From 90f8aa91b65db188c037f984da706e14e3102724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 35/46] fix: Parser.Delete must relabel the elements after the
 deleted one

---
 parse_delete.go | 6 ++++--
 parse_utils.go  | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parse_delete.go b/parse_delete.go
index 726979c..97c8c7c 100755
--- a/parse_delete.go
+++ b/parse_delete.go
@@ -14,11 +14,12 @@ func (p *Parser) Delete(path ...string) error {
 	if err != nil {
 		return err
 	}
-	curr.deAttach()
-	p.json, err = Delete(p.json, path...)
+	json, err := Delete(p.json, path...)
 	if err != nil {
 		return err
 	}
+	p.json = json
+	curr.deAttach()
 	for i := 0; i < lenp-1; i++ {
 		curr = curr.up
 		curr.value, err = Get(p.json, path[:lenp-i-1]...)
@@ -26,5 +27,6 @@ func (p *Parser) Delete(path ...string) error {
 			return err
 		}
 	}
+	p.core.value = cleanValue(p.json)
 	return nil
 }
diff --git a/parse_utils.go b/parse_utils.go
index 29f695a..e3dd255 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -122,6 +122,12 @@ func (n *node) deAttach() {
 			newDown = append(newDown, d)
 		}
 	}
+	// elements after the deleted one move down
+	if len(n.up.value) != 0 && n.up.value[0] == 91 {
+		for i, d := range newDown {
+			d.label = strconv.Itoa(i)
+		}
+	}
 	n.up.down = newDown
 }
 
-- 
2.43.0


From 78a07eacb496c0d34c7cc6a971fe486e4650e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 36/46] fix: Parser.AddKeyValue must add to the addressed
 object only and keep document and nodes in step

---
 parse_add.go | 105 +++++++++------------------------------------------
 1 file changed, 18 insertions(+), 87 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 8361fd1..5bcacba 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -15,102 +15,33 @@ func (p *Parser) AddKeyValue(key string, newVal []byte, path ...string) error {
 	if lenv == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	if newVal == nil {
+		newVal = []byte("null")
+	}
+	curr, err = p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	curr = p.core
-	if lenp == 0 {
-		for _, d := range curr.down {
-			if d.label == key {
-				return errKeyAlreadyExist(key)
-			}
-		}
-		if len(json) >= 2 {
-			if json[0] == 123 && json[len(json)-1] == 125 {
-				newKV := []byte(`,"` + key + `":` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						newNode.label = key
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newKV[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				newNode.label = key
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errObjectExpected()
-		}
-		return errBadJSON(0)
+	newNode, err := makeNode(key, newVal)
+	if err != nil {
+		return err
 	}
-	curr, err = p.core.walk(path)
+	json, err := AddKeyValue(p.json, key, newVal, path...)
 	if err != nil {
 		return err
 	}
-	for _, d := range curr.up.down {
-		if d.label == key {
-			return errKeyAlreadyExist(key)
+	p.json = json
+	curr.down = append(curr.down, newNode)
+	newNode.up = curr
+	for i := 0; i < lenp; i++ {
+		newNode = newNode.up
+		newNode.value, err = Get(p.json, path[:lenp-i]...)
+		if err != nil {
+			return err
 		}
 	}
-	if len(json) >= 2 {
-		if json[0] == 123 && json[len(json)-1] == 125 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					newNode.label = key
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = AddKeyValue(p.json, key, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			newNode.label = key
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = AddKeyValue(p.json, key, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errObjectExpected()
-	}
-	return errBadJSON(0)
+	p.core.value = cleanValue(p.json)
+	return nil
 }
 
 // Add adds a value to an array.
-- 
2.43.0


From ad08e764604b8fc8705c102b07d4d17a354214c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 37/46] fix: Parser.Add must keep document and nodes in step
 for empty and spaced arrays

---
 parse_add.go | 96 ++++++++--------------------------------------------
 1 file changed, 14 insertions(+), 82 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 5bcacba..67aacb8 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -55,99 +55,31 @@ func (p *Parser) Add(newVal []byte, path ...string) error {
 	if lenv == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	curr, err = p.core.walk(path)
 	if err != nil {
 		return err
 	}
+	index := len(curr.down)
+	newNode, err := makeNode(strconv.Itoa(index), newVal)
 	if err != nil {
 		return err
 	}
-	if lenp == 0 {
-		curr = p.core
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				newValue := []byte(`,` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						index := len(curr.down)
-						newNode.label = strconv.Itoa(index)
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newValue[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				index := len(curr.down)
-				newNode.label = strconv.Itoa(index)
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
+	json, err := Add(p.json, newVal, path...)
 	if err != nil {
 		return err
 	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					index := len(curr.down)
-					newNode.label = strconv.Itoa(index)
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Add(p.json, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp-1; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			index := len(curr.down)
-			newNode.label = strconv.Itoa(index)
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Add(p.json, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
+	p.json = json
+	curr.down = append(curr.down, newNode)
+	newNode.up = curr
+	for i := 0; i < lenp; i++ {
+		newNode = newNode.up
+		newNode.value, err = Get(p.json, path[:lenp-i]...)
+		if err != nil {
+			return err
 		}
-		return errArrayExpected()
 	}
-	return errBadJSON(0)
+	p.core.value = cleanValue(p.json)
+	return nil
 }
 
 // Insert inserts a value to an array.
-- 
2.43.0


From 65a988d68b4669bce066539027ae512a989e3a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 38/46] fix: Parser.Insert must put the node at its index and
 shift the others once

---
 parse_add.go   | 114 ++++++++-----------------------------------------
 parse_utils.go |   3 ++
 2 files changed, 20 insertions(+), 97 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 67aacb8..d6c5ed1 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -93,112 +93,32 @@ func (p *Parser) Insert(newIndex int, newVal []byte, path ...string) error {
 	if lenv == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	curr, err = p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	curr = p.core
-	if lenp == 0 {
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						p.json, err = Insert(p.json, newIndex, newVal, path...)
-						if err != nil {
-							return err
-						}
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				newNode := createNode(nil)
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				p.json, err = Insert(p.json, newIndex, newVal, path...)
-				if err != nil {
-					return err
-				}
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
+	newNode, err := makeNode(strconv.Itoa(newIndex), newVal)
+	if err != nil {
+		return err
 	}
-	curr, err = p.core.walk(path)
+	json, err := Insert(p.json, newIndex, newVal, path...)
+	if err != nil {
+		return err
+	}
+	p.json = json
+	err = newNode.insert(curr, newIndex)
 	if err != nil {
 		return err
 	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					err = newNode.insert(curr, newIndex)
-					if err != nil {
-						return err
-					}
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Insert(p.json, newIndex, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			err = newNode.insert(curr, newIndex)
-			if err != nil {
-				return err
-			}
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Insert(p.json, newIndex, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
+	for i := 0; i < lenp; i++ {
+		newNode = newNode.up
+		newNode.value, err = Get(p.json, path[:lenp-i]...)
+		if err != nil {
+			return err
 		}
-		return errArrayExpected()
 	}
-	return errBadJSON(0)
+	p.core.value = cleanValue(p.json)
+	return nil
 }
 
 // AddKeyValueString is a variation of AddKeyValue() func.
diff --git a/parse_utils.go b/parse_utils.go
index e3dd255..dde6dc6 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -110,6 +110,9 @@ func (n *node) insert(up *node, index int) error {
 		}
 		n.label = strconv.Itoa(index)
 		n.up = up
+		up.down = append(up.down, n)
+		copy(up.down[index+1:], up.down[index:])
+		up.down[index] = n
 		return nil
 	}
 	return errIndexOutOfRange()
-- 
2.43.0


From 3c2c8a92ead2abb319ef42427a4003a893c2a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 39/46] fix: listings and iteration of objects must refuse a
 column without a key instead of panicking

---
 inter_get.go  | 8 ++++++++
 inter_iter.go | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index ba929d6..ab7fc1e 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -397,6 +397,10 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						// column without a key
+						if keyEnd < keyStart+1 {
+							return nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 					}
@@ -595,6 +599,10 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						// column without a key
+						if keyEnd < keyStart+1 {
+							return nil, nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 						start = i + 1
diff --git a/inter_iter.go b/inter_iter.go
index b20fef1..f5171c6 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -248,6 +248,10 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 						continue
 					}
 					if curr == 58 {
+						// column without a key
+						if keyEnd < keyStart+1 {
+							return errBadJSON(i)
+						}
 						key = json[keyStart+1 : keyEnd]
 						start = i + 1
 						continue
-- 
2.43.0


From 7bb73011f0a7b9159de9dcf898e0df53de54ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 40/46] fix: IterateKeyValue must not panic when the last
 member has no value

---
 inter_iter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inter_iter.go b/inter_iter.go
index f5171c6..d7e8139 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -187,6 +187,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 							if json[start] == 123 && key == nil && blank(string(json[start+1:i])) {
 								return nil
 							}
+							end = i - 1
 							for j := start; j < i; j++ {
 								if !space(json[j]) {
 									start = j
-- 
2.43.0


From fa06212b68e30facf47799e1a7ae967212249fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 41/46] fix: key search must not find an empty key where there
 is no key at all

---
 inter_core.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inter_core.go b/inter_core.go
index 4e82eb4..7027ccb 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -249,7 +249,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 						if curr == 58 {
 							// comp between current path and key
 							// length comp between current path and key
-							if len(currentPath) == end-start {
+							// no key has ended before this column when end is zero
+							if end > 0 && len(currentPath) == end-start {
 								same := true
 								// compare all elements
 								for j := 0; j < len(currentPath); j++ {
-- 
2.43.0


From 8c02145c6f00431bfc9df4896f11e866464f6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 42/46] fix: Parse must refuse a column without a key instead
 of panicking

---
 parse_core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse_core.go b/parse_core.go
index 720b1cb..cbee56a 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -104,6 +104,10 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 58:
+				// column without a key
+				if end < start {
+					return errBadJSON(i)
+				}
 				key = json[start:end]
 				valStart = i + 1
 				last = 58
-- 
2.43.0


From 028f555f878e040f2a42494ee1ff729b21a678e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 43/46] fix: Parser.GetNew must not panic on nodes without a
 text

---
 parse_utils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse_utils.go b/parse_utils.go
index dde6dc6..5550242 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -60,6 +60,10 @@ func packValue(value []byte) []byte {
 }
 
 func (n *node) dive(bytes []byte) []byte {
+	// nodes of malformed values might have no text
+	if len(n.value) == 0 {
+		return bytes
+	}
 	temp := make([]byte, 0, 32)
 	temp = append(temp, n.value[0])
 	for _, d := range n.down {
@@ -67,10 +71,10 @@ func (n *node) dive(bytes []byte) []byte {
 		if len(d.down) != 0 {
 			val = d.dive(bytes)
 		}
-		if d.up.value[0] == 123 {
+		if n.value[0] == 123 {
 			temp = append(temp, packKeyValue(d.label, val)...)
 		}
-		if d.up.value[0] == 91 {
+		if n.value[0] == 91 {
 			temp = append(temp, packValue(val)...)
 		}
 		temp = append(temp, 44)
-- 
2.43.0


From 89b84356c94cfcd5a3e5eb66581f28220d5cc94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:35 +0000
Subject: [PATCH 44/46] fix: ParseArray must accept white space around the
 array

---
 others.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/others.go b/others.go
index 721bd5d..7985ecc 100755
--- a/others.go
+++ b/others.go
@@ -188,6 +188,13 @@ func Indent(json []byte) []byte {
 
 // ParseArray is a parse function for converting string type arrays to string slices
 func ParseArray(arr string) []string {
+	// white space around the array is not part of it
+	for len(arr) > 0 && space(arr[0]) {
+		arr = arr[1:]
+	}
+	for len(arr) > 0 && space(arr[len(arr)-1]) {
+		arr = arr[:len(arr)-1]
+	}
 	if len(arr) < 2 {
 		return []string{}
 	}
-- 
2.43.0


From c9cf5744b735dc4576f9566a7ae173b912c2382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 45/46] fix: CheckAbs must not take a repeated name for a
 missing key

---
 make.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/make.go b/make.go
index fd21756..2b824c9 100755
--- a/make.go
+++ b/make.go
@@ -96,6 +96,10 @@ func (s *Scheme) Check(json []byte) bool {
 
 // CheckAbs checks the json is absolutely fitting the scheme or not
 func (s *Scheme) CheckAbs(json []byte) bool {
+	// a repeated name in the json must not stand in for a missing one
+	if !s.Check(json) {
+		return false
+	}
 	keys, err := GetKeys(json)
 	if err != nil {
 		return false
-- 
2.43.0


From 2e7c4c820dffecfc2ab3e3d239de60cbc9a9759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 46/46] fix: Parser.Delete must leave other members of the same
 name

---
 parse_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse_utils.go b/parse_utils.go
index 5550242..89af650 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -125,7 +125,7 @@ func (n *node) insert(up *node, index int) error {
 func (n *node) deAttach() {
 	newDown := make([]*node, 0, len(n.up.down)-1)
 	for _, d := range n.up.down {
-		if d.label != n.label {
+		if d != n {
 			newDown = append(newDown, d)
 		}
 	}
-- 
2.43.0

