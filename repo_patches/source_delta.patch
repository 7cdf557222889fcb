From dd45b3dcd2ecba5b42aab9d8a7cde0f3c3d3cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 01/54] fix: compare numbers exactly and never panic on == of
 lists or wrong argument counts

---
 core/compare.go | 112 ++++++++++++++++++++++++++++++++++++++++++++++++
 engine/apply.go |   8 ++--
 engine/util.go  |  73 +++++--------------------------
 3 files changed, 126 insertions(+), 67 deletions(-)
 create mode 100644 core/compare.go

diff --git a/core/compare.go b/core/compare.go
new file mode 100644
index 0000000..3a9f7f5
--- /dev/null
+++ b/core/compare.go
@@ -0,0 +1,112 @@
+package core
+
+import (
+	"cmp"
+	"math"
+)
+
+// IsNumber reports whether v is a value of a number node
+func IsNumber(v any) bool {
+	switch v.(type) {
+	case int, float64:
+		return true
+	default:
+		return false
+	}
+}
+
+// CompareNumbers compares two numbers (int or float64) without rounding.
+// ok is false if one of them is not a number or is NaN.
+func CompareNumbers(a, b any) (order int, ok bool) {
+	switch x := a.(type) {
+	case int:
+		switch y := b.(type) {
+		case int:
+			return cmp.Compare(x, y), true
+		case float64:
+			return compareIntFloat(x, y)
+		}
+	case float64:
+		switch y := b.(type) {
+		case int:
+			order, ok := compareIntFloat(y, x)
+			return -order, ok
+		case float64:
+			if math.IsNaN(x) || math.IsNaN(y) {
+				return 0, false
+			}
+			return cmp.Compare(x, y), true
+		}
+	}
+	return 0, false
+}
+
+func compareIntFloat(i int, f float64) (order int, ok bool) {
+	switch {
+	case math.IsNaN(f):
+		return 0, false
+	case f >= -float64(math.MinInt):
+		return -1, true
+	case f < float64(math.MinInt):
+		return 1, true
+	}
+	t := math.Trunc(f)
+	if c := cmp.Compare(i, int(t)); c != 0 {
+		return c, true
+	}
+	return cmp.Compare(t, f), true
+}
+
+// EqualNodes reports whether two nodes have equal values.
+// Numbers are equal if they denote the same number, lists if they are equal element by element
+// and maps if they have the same keys with equal values.
+func EqualNodes(a, b *YispNode) bool {
+	if a == nil || b == nil {
+		return a == b
+	}
+	if IsNumber(a.Value) && IsNumber(b.Value) {
+		order, ok := CompareNumbers(a.Value, b.Value)
+		return ok && order == 0
+	}
+
+	switch x := a.Value.(type) {
+	case []any:
+		y, ok := b.Value.([]any)
+		if !ok || len(x) != len(y) {
+			return false
+		}
+		for i := range x {
+			if !equalItems(x[i], y[i]) {
+				return false
+			}
+		}
+		return true
+	case *YispMap:
+		y, ok := b.Value.(*YispMap)
+		if !ok || x.Len() != y.Len() {
+			return false
+		}
+		for key, xItem := range x.AllFromFront() {
+			yItem, ok := y.Get(key)
+			if !ok || !equalItems(xItem, yItem) {
+				return false
+			}
+		}
+		return true
+	case map[string]*YispNode: // imported module
+		_, ok := b.Value.(map[string]*YispNode)
+		return ok && a == b
+	}
+
+	switch b.Value.(type) {
+	case []any, map[string]*YispNode:
+		return false
+	}
+	return a.Value == b.Value
+}
+
+func equalItems(a, b any) bool {
+	aNode, aOk := a.(*YispNode)
+	bNode, bOk := b.(*YispNode)
+	return aOk && bOk && EqualNodes(aNode, bNode)
+}
diff --git a/engine/apply.go b/engine/apply.go
index 9d76a39..7c5959c 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -215,22 +215,22 @@ func opNotEqual(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.
 
 // opLessThan checks if the first number is less than the second
 func opLessThan(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
-	return compareNumbers(cdr, "<", func(a, b float64) bool { return a < b })
+	return compareNumbers(cdr, "<", func(order int) bool { return order < 0 })
 }
 
 // opLessThanOrEqual checks if the first number is less than or equal to the second
 func opLessThanOrEqual(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
-	return compareNumbers(cdr, "<=", func(a, b float64) bool { return a <= b })
+	return compareNumbers(cdr, "<=", func(order int) bool { return order <= 0 })
 }
 
 // opGreaterThan checks if the first number is greater than the second
 func opGreaterThan(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
-	return compareNumbers(cdr, ">", func(a, b float64) bool { return a > b })
+	return compareNumbers(cdr, ">", func(order int) bool { return order > 0 })
 }
 
 // opGreaterThanOrEqual checks if the first number is greater than or equal to the second
 func opGreaterThanOrEqual(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
-	return compareNumbers(cdr, ">=", func(a, b float64) bool { return a >= b })
+	return compareNumbers(cdr, ">=", func(order int) bool { return order >= 0 })
 }
 
 func opNullCoalesce(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
diff --git a/engine/util.go b/engine/util.go
index d9279a8..c111f91 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -49,56 +49,12 @@ func EvalAndCastAny[T any](value any, env *core.Env, mode core.EvalMode, e core.
 }
 
 // compareValues compares two values of any type for equality
-// It only compares values of the same type
 func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
-	firstNode := cdr[0]
-	secondNode := cdr[1]
-
-	// Only compare values of the same type
-	equal := false
-
-	// Handle different type combinations
-	switch v1 := firstNode.Value.(type) {
-	case int:
-		switch v2 := secondNode.Value.(type) {
-		case int:
-			equal = v1 == v2
-		case float64:
-			equal = float64(v1) == v2
-		default:
-			equal = false // Different types
-		}
-	case float64:
-		switch v2 := secondNode.Value.(type) {
-		case int:
-			equal = v1 == float64(v2)
-		case float64:
-			equal = v1 == v2
-		default:
-			equal = false // Different types
-		}
-	case string:
-		switch v2 := secondNode.Value.(type) {
-		case string:
-			equal = v1 == v2
-		default:
-			equal = false // Different types
-		}
-	case bool:
-		switch v2 := secondNode.Value.(type) {
-		case bool:
-			equal = v1 == v2
-		default:
-			equal = false // Different types
-		}
-	default:
-		// For other types, we just check if they're the same type and value
-		equal = firstNode.Value == secondNode.Value
-	}
+	equal := core.EqualNodes(cdr[0], cdr[1])
 
 	// For != operation, invert the result
 	if !expectEqual {
@@ -113,36 +69,27 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 
 // compareNumbers compares two numbers using the provided comparison function
 // It handles both integers and floating point numbers
-func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float64) bool) (*core.YispNode, error) {
+func compareNumbers(cdr []*core.YispNode, opName string, cmp func(order int) bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
 	firstNode := cdr[0]
-	var firstNum float64
-	switch v := firstNode.Value.(type) {
-	case int:
-		firstNum = float64(v)
-	case float64:
-		firstNum = v
-	default:
+	if !core.IsNumber(firstNode.Value) {
 		return nil, core.NewEvaluationError(firstNode, fmt.Sprintf("invalid first argument type for %s: %T (value: %v)", opName, firstNode.Value, firstNode.Value))
 	}
 
 	secondNode := cdr[1]
-	var secondNum float64
-	switch v := secondNode.Value.(type) {
-	case int:
-		secondNum = float64(v)
-	case float64:
-		secondNum = v
-	default:
+	if !core.IsNumber(secondNode.Value) {
 		return nil, core.NewEvaluationError(secondNode, fmt.Sprintf("invalid second argument type for %s: %T (value: %v)", opName, secondNode.Value, secondNode.Value))
 	}
 
+	// NaN is neither less than, equal to nor greater than anything
+	order, ok := core.CompareNumbers(firstNode.Value, secondNode.Value)
+
 	return &core.YispNode{
 		Kind:  core.KindBool,
-		Value: cmp(firstNum, secondNum),
+		Value: ok && cmp(order),
 	}, nil
 }
 
-- 
2.43.0


From 4dc766e844502beab322b7081b8ad0978a4f0ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 02/54] fix: lists.contains compares like == and does not panic
 on lists

---
 lib/lists.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lists.go b/lib/lists.go
index 75ae2be..8e4b143 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -129,7 +129,7 @@ func opListContains(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e c
 		if !ok {
 			return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		if itemNode.Value == elemNode.Value {
+		if core.EqualNodes(itemNode, elemNode) {
 			return &core.YispNode{
 				Kind:  core.KindBool,
 				Value: true,
-- 
2.43.0


From fbc8beabc937a9edc4d6c4220f849d5cc78c5ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 03/54] fix: operators called without arguments report an error
 instead of panicking

---
 engine/apply.go | 11 +++++++++++
 lib/files.go    |  9 +++++++--
 lib/maps.go     |  4 ++++
 lib/strings.go  |  4 ++++
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/engine/apply.go b/engine/apply.go
index 7c5959c..d5b7204 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -396,11 +396,22 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 }
 
 func opProgn(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return &core.YispNode{
+			Kind:  core.KindNull,
+			Value: nil,
+		}, nil
+	}
+
 	return cdr[len(cdr)-1], nil
 }
 
 func opPipeline(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "pipeline requires at least 1 argument, got 0")
+	}
+
 	value := cdr[0]
 
 	for _, fn := range cdr[1:] {
diff --git a/lib/files.go b/lib/files.go
index 00fa479..7225bf8 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -81,17 +81,22 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 		}
 	}
 
+	attr := core.Attribute{}
+	if len(cdr) > 0 {
+		attr = cdr[0].Attr
+	}
+
 	return &core.YispNode{
 		Kind:  core.KindArray,
 		Value: result,
-		Attr:  cdr[0].Attr,
+		Attr:  attr,
 	}, nil
 }
 
 func opReadAll(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
 	if len(cdr) != 1 {
-		return nil, core.NewEvaluationError(cdr[0], "read-file expects exactly one argument")
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("read-file expects exactly one argument, got %d", len(cdr)))
 	}
 
 	str, ok := cdr[0].Value.(string)
diff --git a/lib/maps.go b/lib/maps.go
index 32ad9e5..6237b51 100644
--- a/lib/maps.go
+++ b/lib/maps.go
@@ -18,6 +18,10 @@ func init() {
 
 func opFromEntries(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) != 1 {
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("fromEntries requires 1 argument, got %d", len(cdr)))
+	}
+
 	node := cdr[0]
 	arr, ok := node.Value.([]any)
 	if !ok {
diff --git a/lib/strings.go b/lib/strings.go
index 2042682..c1cfc6d 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -101,6 +101,10 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 
 func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "format requires at least 1 argument, got 0")
+	}
+
 	formatNode := cdr[0]
 	argsNode := cdr[1:]
 
-- 
2.43.0


From b6c71265a13842f836c2b0b5b25715d8273b259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 04/54] fix: maps.patch compares values in test, keeps copies
 apart and accepts only RFC 6901 pointers

---
 core/types.go | 30 +++++++++++++++++++
 lib/patch.go  | 79 +++++++++++++++++++++++++++++++++------------------
 2 files changed, 81 insertions(+), 28 deletions(-)

diff --git a/core/types.go b/core/types.go
index 2bfb08c..bd41fdc 100644
--- a/core/types.go
+++ b/core/types.go
@@ -152,6 +152,36 @@ func (n *YispNode) String() string {
 	}
 }
 
+// DeepCopy returns a copy of the node that shares no list or map with it
+func (n *YispNode) DeepCopy() *YispNode {
+	if n == nil {
+		return nil
+	}
+	clone := *n
+	switch value := n.Value.(type) {
+	case []any:
+		items := make([]any, len(value))
+		for i, item := range value {
+			items[i] = deepCopyItem(item)
+		}
+		clone.Value = items
+	case *YispMap:
+		m := NewYispMap()
+		for key, item := range value.AllFromFront() {
+			m.Set(key, deepCopyItem(item))
+		}
+		clone.Value = m
+	}
+	return &clone
+}
+
+func deepCopyItem(item any) any {
+	if node, ok := item.(*YispNode); ok {
+		return node.DeepCopy()
+	}
+	return item
+}
+
 func (n *YispNode) ToNative() (any, error) {
 	switch n.Kind {
 	case KindNull, KindBool, KindInt, KindFloat, KindString:
diff --git a/lib/patch.go b/lib/patch.go
index 9f799c1..74acdc8 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -27,6 +28,9 @@ func parsePointer(path string) ([]string, error) {
 	tokens := strings.Split(path[1:], "/")
 	// Unescape special characters per RFC 6901
 	for i, token := range tokens {
+		if strings.Count(token, "~") != strings.Count(token, "~0")+strings.Count(token, "~1") {
+			return nil, fmt.Errorf("invalid escape in JSON Pointer: %s", path)
+		}
 		token = strings.ReplaceAll(token, "~1", "/")
 		token = strings.ReplaceAll(token, "~0", "~")
 		tokens[i] = token
@@ -34,6 +38,19 @@ func parsePointer(path string) ([]string, error) {
 	return tokens, nil
 }
 
+// parseIndex parses an array index of a JSON Pointer (RFC 6901: digits without leading zeros)
+func parseIndex(token string) (int, error) {
+	for _, c := range token {
+		if c < '0' || c > '9' {
+			return 0, fmt.Errorf("not a number: %s", token)
+		}
+	}
+	if len(token) > 1 && token[0] == '0' {
+		return 0, fmt.Errorf("leading zero: %s", token)
+	}
+	return strconv.Atoi(token)
+}
+
 // getValue retrieves a value from a YispNode using a JSON Pointer path
 func getValue(node *core.YispNode, path string) (*core.YispNode, error) {
 	tokens, err := parsePointer(path)
@@ -61,7 +78,7 @@ func getValue(node *core.YispNode, path string) (*core.YispNode, error) {
 			if !ok {
 				return nil, fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return nil, fmt.Errorf("invalid array index: %s", token)
 			}
@@ -79,6 +96,14 @@ func getValue(node *core.YispNode, path string) (*core.YispNode, error) {
 	return current, nil
 }
 
+// copyItem copies a value of a map, so that patching one place does not change another
+func copyItem(item any) any {
+	if node, ok := item.(*core.YispNode); ok {
+		return node.DeepCopy()
+	}
+	return item
+}
+
 // addValue adds a value in a YispNode using a JSON Pointer path (RFC 6902 add operation)
 // For arrays, supports appending when index equals array length
 // Supports wildcard matching with '*' for map keys
@@ -127,7 +152,7 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -149,7 +174,7 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 		if !ok {
 			return fmt.Errorf("expected map, got %T", current.Value)
 		}
-		m.Set(lastToken, value)
+		m.Set(lastToken, value.DeepCopy())
 	} else if current.Kind == core.KindArray {
 		arr, ok := current.Value.([]any)
 		if !ok {
@@ -158,9 +183,9 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 
 		// RFC 6902: "-" means append to end of array
 		if lastToken == "-" {
-			current.Value = append(arr, value)
+			current.Value = append(slices.Clone(arr), value.DeepCopy())
 		} else {
-			idx, err := strconv.Atoi(lastToken)
+			idx, err := parseIndex(lastToken)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", lastToken)
 			}
@@ -170,12 +195,12 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 			}
 			if idx == len(arr) {
 				// Append to array
-				current.Value = append(arr, value)
+				current.Value = append(slices.Clone(arr), value.DeepCopy())
 			} else {
 				// Insert at index, shifting elements to the right
 				newArr := make([]any, len(arr)+1)
 				copy(newArr, arr[:idx])
-				newArr[idx] = value
+				newArr[idx] = value.DeepCopy()
 				copy(newArr[idx+1:], arr[idx:])
 				current.Value = newArr
 			}
@@ -211,7 +236,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -255,11 +280,11 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, copyItem(vVal))
 					}
 				} else {
 					// Replace the entire value
-					m.Set(key, value)
+					m.Set(key, value.DeepCopy())
 				}
 			}
 		} else {
@@ -291,7 +316,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, copyItem(vVal))
 					}
 				} else {
 					// Recursively apply add to this node with remaining path
@@ -329,11 +354,11 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, copyItem(vVal))
 					}
 				} else {
 					// Replace the entire value
-					arr[i] = value
+					arr[i] = value.DeepCopy()
 				}
 			}
 		} else {
@@ -365,7 +390,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, copyItem(vVal))
 					}
 				} else {
 					// Recursively apply add to this node with remaining path
@@ -431,7 +456,7 @@ func replaceValue(node *core.YispNode, path string, value *core.YispNode) error
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -457,20 +482,20 @@ func replaceValue(node *core.YispNode, path string, value *core.YispNode) error
 		if _, ok := m.Get(lastToken); !ok {
 			return fmt.Errorf("key not found for replace: %s", lastToken)
 		}
-		m.Set(lastToken, value)
+		m.Set(lastToken, value.DeepCopy())
 	} else if current.Kind == core.KindArray {
 		arr, ok := current.Value.([]any)
 		if !ok {
 			return fmt.Errorf("expected array, got %T", current.Value)
 		}
-		idx, err := strconv.Atoi(lastToken)
+		idx, err := parseIndex(lastToken)
 		if err != nil {
 			return fmt.Errorf("invalid array index: %s", lastToken)
 		}
 		if idx < 0 || idx >= len(arr) {
 			return fmt.Errorf("array index out of bounds: %d", idx)
 		}
-		arr[idx] = value
+		arr[idx] = value.DeepCopy()
 	} else {
 		return fmt.Errorf("cannot set value in %s", current.Kind)
 	}
@@ -502,7 +527,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -529,7 +554,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all keys and replace the value
 			for key := range m.AllFromFront() {
-				m.Set(key, value)
+				m.Set(key, value.DeepCopy())
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all matching keys
@@ -563,7 +588,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all array elements and replace the value
 			for i := range arr {
-				arr[i] = value
+				arr[i] = value.DeepCopy()
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all array elements
@@ -641,7 +666,7 @@ func deleteValue(node *core.YispNode, path string) error {
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -672,7 +697,7 @@ func deleteValue(node *core.YispNode, path string) error {
 		if !ok {
 			return fmt.Errorf("expected array, got %T", current.Value)
 		}
-		idx, err := strconv.Atoi(lastToken)
+		idx, err := parseIndex(lastToken)
 		if err != nil {
 			return fmt.Errorf("invalid array index: %s", lastToken)
 		}
@@ -715,7 +740,7 @@ func deleteValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex
 			if !ok {
 				return fmt.Errorf("expected array, got %T", current.Value)
 			}
-			idx, err := strconv.Atoi(token)
+			idx, err := parseIndex(token)
 			if err != nil {
 				return fmt.Errorf("invalid array index: %s", token)
 			}
@@ -1029,11 +1054,9 @@ func applyPatches(target *core.YispNode, patchesArray []any) error {
 			if err != nil {
 				return core.NewEvaluationError(patchNode, fmt.Sprintf("test operation failed: %v", err))
 			}
-			// Compare values (simple comparison for now)
-			if value.Kind != expectedNode.Kind {
-				return core.NewEvaluationError(patchNode, fmt.Sprintf("test operation failed: kind mismatch"))
+			if !core.EqualNodes(value, expectedNode) {
+				return core.NewEvaluationError(patchNode, "test operation failed: value mismatch")
 			}
-			// TODO: Deep comparison if needed
 
 		default:
 			return core.NewEvaluationError(patchNode, fmt.Sprintf("unknown operation: %s", op))
-- 
2.43.0


From a5123c8f27b9b1d3aca9ccea688389a637bcc2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 05/54] fix: k8s.patch leaves its targets as they are and
 compares manifest ids field by field

---
 lib/k8s.go | 93 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 52 insertions(+), 41 deletions(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index 313fefb..85fc3cc 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -32,6 +33,10 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		return nil, core.NewEvaluationError(patches, fmt.Sprintf("invalid patch type: %T", patches.Value))
 	}
 
+	patched := *targets
+	targetArray = slices.Clone(targetArray)
+	patched.Value = targetArray
+
 	for _, patchAny := range patchArray {
 		patchNode, ok := patchAny.(*core.YispNode)
 		if !ok {
@@ -64,74 +69,80 @@ func opPatch(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 		}
 	}
 
-	return targets, nil
+	return &patched, nil
+}
+
+type manifestID struct {
+	apiVersion string
+	kind       string
+	namespace  string
+	name       string
 }
 
-func getManifestID(node *core.YispNode) (string, error) {
+func getManifestID(node *core.YispNode) (id manifestID, err error) {
 	if node.Kind != core.KindMap {
-		return "", fmt.Errorf("expected core.KindMap for GVK, got %s", node.Kind)
+		return id, fmt.Errorf("expected core.KindMap for GVK, got %s", node.Kind)
 	}
 
 	m, ok := node.Value.(*core.YispMap)
 	if !ok {
-		return "", fmt.Errorf("expected core.YispMap for GVK, got %T", node.Value)
+		return id, fmt.Errorf("expected core.YispMap for GVK, got %T", node.Value)
 	}
 
-	var apiVersion string
-	var kind string
-	var namespace string
-	var name string
-
-	apiVersionAny, ok := m.Get("apiVersion")
-	if ok {
-		apiVersionNode, ok := apiVersionAny.(*core.YispNode)
-		if !ok {
-			return "", fmt.Errorf("expected core.YispNode for apiVersion, got %T", apiVersionAny)
-		}
-		apiVersion, _ = apiVersionNode.Value.(string)
+	id.apiVersion, err = getIDField(m, "apiVersion")
+	if err != nil {
+		return id, err
 	}
 
-	kindAny, ok := m.Get("kind")
-	if ok {
-		kindNode, ok := kindAny.(*core.YispNode)
-		if !ok {
-			return "", fmt.Errorf("expected core.YispNode for kind, got %T", kindAny)
-		}
-		kind, _ = kindNode.Value.(string)
+	id.kind, err = getIDField(m, "kind")
+	if err != nil {
+		return id, err
 	}
 
 	metadataAny, ok := m.Get("metadata")
 	if ok {
 		metadataNode, ok := metadataAny.(*core.YispNode)
 		if !ok {
-			return "", fmt.Errorf("expected core.YispNode for metadata, got %T", metadataAny)
+			return id, fmt.Errorf("expected core.YispNode for metadata, got %T", metadataAny)
 		}
 		if metadataNode.Kind != core.KindMap {
-			return "", fmt.Errorf("expected core.KindMap for metadata, got %s", metadataNode.Kind)
+			return id, fmt.Errorf("expected core.KindMap for metadata, got %s", metadataNode.Kind)
 		}
 		metadataMap, ok := metadataNode.Value.(*core.YispMap)
 		if !ok {
-			return "", fmt.Errorf("expected core.YispMap for metadata, got %T", metadataNode.Value)
+			return id, fmt.Errorf("expected core.YispMap for metadata, got %T", metadataNode.Value)
 		}
 
-		namespaceAny, ok := metadataMap.Get("namespace")
-		if ok {
-			namespaceNode, ok := namespaceAny.(*core.YispNode)
-			if !ok {
-				return "", fmt.Errorf("expected core.YispNode for namespace, got %T", namespaceAny)
-			}
-			namespace, _ = namespaceNode.Value.(string)
+		id.namespace, err = getIDField(metadataMap, "namespace")
+		if err != nil {
+			return id, err
 		}
 
-		nameAny, ok := metadataMap.Get("name")
-		if ok {
-			nameNode, ok := nameAny.(*core.YispNode)
-			if !ok {
-				return "", fmt.Errorf("expected core.YispNode for name, got %T", nameAny)
-			}
-			name, _ = nameNode.Value.(string)
+		id.name, err = getIDField(metadataMap, "name")
+		if err != nil {
+			return id, err
 		}
 	}
 
-	return fmt.Sprintf("%s/%s/%s/%s", apiVersion, kind, namespace, name), nil
+	return id, nil
+}
+
+// getIDField returns the string at key, or "" if there is none
+func getIDField(m *core.YispMap, key string) (string, error) {
+	item, ok := m.Get(key)
+	if !ok {
+		return "", nil
+	}
+	node, ok := item.(*core.YispNode)
+	if !ok {
+		return "", fmt.Errorf("expected core.YispNode for %s, got %T", key, item)
+	}
+	if node.Kind == core.KindNull {
+		return "", nil
+	}
+	value, ok := node.Value.(string)
+	if !ok {
+		return "", fmt.Errorf("expected string for %s, got %s", key, node.Kind)
+	}
+	return value, nil
 }
-- 
2.43.0


From b6a5a26bf376cd496d6d24b1e3657327ef441616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 06/54] fix: merging keeps the left list as it is and the type
 of a typed value merged with an untyped one

---
 core/util.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/util.go b/core/util.go
index 5ab2c5e..7beca78 100644
--- a/core/util.go
+++ b/core/util.go
@@ -124,7 +124,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 		return &YispNode{
 			Kind:  KindMap,
 			Value: result,
-			Type:  src.Type, // TODO: sum type
+			Type:  mergedType(dst, src),
 		}, nil
 
 	} else if dst.Kind == KindArray && src.Kind == KindArray {
@@ -148,7 +148,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 				result = append(result, dstArray...)
 				result = append(result, srcArray...)
 			} else {
-				result = dstArray
+				result = slices.Clone(dstArray)
 				for _, srcItem := range srcArray {
 					srcNode, ok := srcItem.(*YispNode)
 					if !ok {
@@ -227,7 +227,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 		return &YispNode{
 			Kind:  KindArray,
 			Value: result,
-			Type:  src.Type, // TODO: sum type
+			Type:  mergedType(dst, src),
 		}, nil
 
 	} else {
@@ -235,6 +235,14 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 	}
 }
 
+// mergedType is the type of a merged node. TODO: sum type
+func mergedType(dst, src *YispNode) *Schema {
+	if src.Type != nil {
+		return src.Type
+	}
+	return dst.Type
+}
+
 func IsZero(v any) bool {
 	if v == nil {
 		return true
-- 
2.43.0


From ca27ad14c1e043fd7c1cc9bf42c21c9001135130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 07/54] fix: casts and type checks leave the value they are
 given as it was

---
 core/schema.go |  8 ++++----
 engine/eval.go | 22 +++++++++++-----------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index a4e0f1d..f65b950 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -340,11 +340,9 @@ func (s *Schema) Validate(node *YispNode) error {
 				if node.Kind != KindInt {
 					return NewEvaluationError(node, fmt.Sprintf("expected string or int, got %s", node.Kind))
 				}
-				node.Kind = KindString
-				node.Value = fmt.Sprintf("%d", node.Value.(int))
-			} else {
-				return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
+				return nil // string limits do not apply to integers
 			}
+			return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 		}
 		if s.MinLength != nil && len(node.Value.(string)) < *s.MinLength {
 			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", len(node.Value.(string)), *s.MinLength))
@@ -550,7 +548,9 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 	}
 }
 
+// Cast returns a copy of the node with the defaults of the schema filled in
 func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
+	node = node.DeepCopy()
 	err := s.InterpolateDefaults(node)
 	if err != nil {
 		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
diff --git a/engine/eval.go b/engine/eval.go
index 78be504..6f1a9dd 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -452,17 +452,6 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
-	if node.Anchor != "" {
-		env.Root().Set(node.Anchor, result) // anchor is global
-
-		if result.Kind == core.KindLambda {
-			lambda, ok := result.Value.(*core.Lambda)
-			if ok {
-				lambda.Clojure.Set(node.Anchor, result)
-			}
-		}
-	}
-
 	if node.Tag != "" && node.Tag != "!quote" && node.Tag != "!yisp" {
 		typeName := strings.TrimPrefix(node.Tag, "!")
 		if typeName != "" && !strings.HasPrefix(typeName, "!") {
@@ -480,5 +469,16 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
+	if node.Anchor != "" {
+		env.Root().Set(node.Anchor, result) // anchor is global
+
+		if result.Kind == core.KindLambda {
+			lambda, ok := result.Value.(*core.Lambda)
+			if ok {
+				lambda.Clojure.Set(node.Anchor, result)
+			}
+		}
+	}
+
 	return result, nil
 }
-- 
2.43.0


From aa9188455014e8efe0c7c364048d29e858315da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 08/54] fix: validation checks bounds exactly, every required
 property, schema references and counts characters

---
 core/schema.go | 132 ++++++++++++++++++++++++++++---------------------
 1 file changed, 77 insertions(+), 55 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index f65b950..02c6878 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -5,11 +5,14 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
+	"math"
 	"net/http"
 	"os"
 	"path/filepath"
 	"slices"
 	"strings"
+	"unicode/utf8"
 )
 
 var schemaTypeToKind = map[string]Kind{
@@ -66,7 +69,7 @@ func (s *Schema) GetProperties() map[string]*Schema {
 		if value.Ref != "" {
 			refSchema, err := LoadSchemaFromID(value.Ref)
 			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", value.Ref, err)
+				fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", value.Ref, err)
 				continue
 			}
 			newProperties[key] = refSchema
@@ -82,7 +85,7 @@ func (s *Schema) GetItems() *Schema {
 	if s.Items != nil && s.Items.Ref != "" {
 		refSchema, err := LoadSchemaFromID(s.Items.Ref)
 		if err != nil {
-			fmt.Printf("Error loading schema from ref %s: %v\n", s.Items.Ref, err)
+			fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", s.Items.Ref, err)
 			return nil
 		}
 		return refSchema
@@ -110,14 +113,6 @@ func (s *Schema) GetAdditionalProperties() any {
 			return fmt.Sprintf("failed to unmarshal additionalProperties: %v", err)
 		}
 
-		if additionalSchema.Ref != "" {
-			refSchema, err := LoadSchemaFromID(additionalSchema.Ref)
-			if err != nil {
-				fmt.Printf("Error loading schema from ref %s: %v\n", additionalSchema.Ref, err)
-			}
-			return refSchema
-		}
-
 		return additionalSchema
 	}
 }
@@ -269,6 +264,14 @@ func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
 
 func (s *Schema) Validate(node *YispNode) error {
 
+	if s.Ref != "" {
+		refSchema, err := LoadSchemaFromID(s.Ref)
+		if err != nil {
+			return NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to load schema %s", s.Ref), err)
+		}
+		return refSchema.Validate(node)
+	}
+
 	if s.OneOf != nil {
 		var errors []string
 		for _, subSchema := range s.OneOf {
@@ -296,43 +299,15 @@ func (s *Schema) Validate(node *YispNode) error {
 		if node.Kind != KindInt {
 			return NewEvaluationError(node, fmt.Sprintf("expected int, got %s", node.Kind))
 		}
-		if s.Minimum != nil && node.Value.(int) < int(*s.Minimum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", node.Value.(int), *s.Minimum))
-		}
-		if s.Maximum != nil && node.Value.(int) > int(*s.Maximum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", node.Value.(int), *s.Maximum))
-		}
-		if s.ExclusiveMinimum != nil && node.Value.(int) <= int(*s.ExclusiveMinimum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", node.Value.(int), *s.ExclusiveMinimum))
-		}
-		if s.ExclusiveMaximum != nil && node.Value.(int) >= int(*s.ExclusiveMaximum) {
-			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", node.Value.(int), *s.ExclusiveMaximum))
-		}
-		if s.MultipleOf != nil {
-			if node.Value.(int)%*s.MultipleOf != 0 {
-				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", node.Value.(int), *s.MultipleOf))
-			}
+		if err := s.validateNumber(node); err != nil {
+			return err
 		}
 	case "float":
 		if node.Kind != KindFloat {
 			return NewEvaluationError(node, fmt.Sprintf("expected float, got %s", node.Kind))
 		}
-		if s.Minimum != nil && node.Value.(float64) < *s.Minimum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is less than minimum %f", node.Value.(float64), *s.Minimum))
-		}
-		if s.Maximum != nil && node.Value.(float64) > *s.Maximum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is greater than maximum %f", node.Value.(float64), *s.Maximum))
-		}
-		if s.ExclusiveMinimum != nil && node.Value.(float64) <= *s.ExclusiveMinimum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is not greater than exclusive minimum %f", node.Value.(float64), *s.ExclusiveMinimum))
-		}
-		if s.ExclusiveMaximum != nil && node.Value.(float64) >= *s.ExclusiveMaximum {
-			return NewEvaluationError(node, fmt.Sprintf("value %f is not less than exclusive maximum %f", node.Value.(float64), *s.ExclusiveMaximum))
-		}
-		if s.MultipleOf != nil {
-			if int(node.Value.(float64))%*s.MultipleOf != 0 {
-				return NewEvaluationError(node, fmt.Sprintf("value %f is not a multiple of %d", node.Value.(float64), *s.MultipleOf))
-			}
+		if err := s.validateNumber(node); err != nil {
+			return err
 		}
 	case "string":
 		if node.Kind != KindString {
@@ -344,18 +319,22 @@ func (s *Schema) Validate(node *YispNode) error {
 			}
 			return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 		}
-		if s.MinLength != nil && len(node.Value.(string)) < *s.MinLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", len(node.Value.(string)), *s.MinLength))
+		str, ok := node.Value.(string)
+		if !ok {
+			return NewEvaluationError(node, fmt.Sprintf("expected string, got %T", node.Value))
 		}
-		if s.MaxLength != nil && len(node.Value.(string)) > *s.MaxLength {
-			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", len(node.Value.(string)), *s.MaxLength))
+		length := utf8.RuneCountInString(str)
+		if s.MinLength != nil && length < *s.MinLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", length, *s.MinLength))
+		}
+		if s.MaxLength != nil && length > *s.MaxLength {
+			return NewEvaluationError(node, fmt.Sprintf("string length %d is greater than maximum %d", length, *s.MaxLength))
 		}
 	case "array":
 		if node.Kind != KindArray {
 			return NewEvaluationError(node, fmt.Sprintf("expected array, got %s", node.Kind))
 		}
 		if s.Items != nil {
-			subSchema := s.GetItems()
 			arr, ok := node.Value.([]any)
 			if !ok {
 				return NewEvaluationError(node, fmt.Sprintf("expected array, got %T", node.Value))
@@ -366,7 +345,7 @@ func (s *Schema) Validate(node *YispNode) error {
 				if !ok {
 					return NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
 				}
-				if err := subSchema.Validate(itemNode); err != nil {
+				if err := s.Items.Validate(itemNode); err != nil {
 					return err
 				}
 			}
@@ -380,15 +359,18 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
 		}
 
+		for _, key := range s.Required {
+			if !m.Has(key) {
+				return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
+			}
+		}
+
 		processed := make(map[string]bool)
-		for key, subSchema := range s.GetProperties() {
+		for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
+			subSchema := s.Properties[key]
 			item, ok := m.Get(key)
 			if !ok {
-				if slices.Contains(s.Required, key) {
-					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
-				} else {
-					continue
-				}
+				continue
 			}
 			itemNode, ok := item.(*YispNode)
 			if !ok {
@@ -464,13 +446,53 @@ func (s *Schema) Validate(node *YispNode) error {
 		}
 
 	default:
-		JsonPrint("schema", s)
 		return NewEvaluationError(node, fmt.Sprintf("unknown type: %s", s.Type))
 	}
 
 	return nil
 }
 
+// validateNumber checks the numeric constraints exactly, for integers and floats
+func (s *Schema) validateNumber(node *YispNode) error {
+	limits := []struct {
+		bound   *float64
+		message string
+		ok      func(order int) bool
+	}{
+		{s.Minimum, "less than minimum", func(order int) bool { return order >= 0 }},
+		{s.Maximum, "greater than maximum", func(order int) bool { return order <= 0 }},
+		{s.ExclusiveMinimum, "not greater than exclusive minimum", func(order int) bool { return order > 0 }},
+		{s.ExclusiveMaximum, "not less than exclusive maximum", func(order int) bool { return order < 0 }},
+	}
+	for _, limit := range limits {
+		if limit.bound == nil {
+			continue
+		}
+		order, ok := CompareNumbers(node.Value, *limit.bound)
+		if !ok || !limit.ok(order) {
+			return NewEvaluationError(node, fmt.Sprintf("value %v is %s %v", node.Value, limit.message, *limit.bound))
+		}
+	}
+
+	if s.MultipleOf == nil {
+		return nil
+	}
+	if *s.MultipleOf == 0 {
+		return NewEvaluationError(node, "multipleOf must not be 0")
+	}
+	multiple := false
+	switch value := node.Value.(type) {
+	case int:
+		multiple = value%*s.MultipleOf == 0
+	case float64:
+		multiple = math.Mod(value, float64(*s.MultipleOf)) == 0
+	}
+	if !multiple {
+		return NewEvaluationError(node, fmt.Sprintf("value %v is not a multiple of %d", node.Value, *s.MultipleOf))
+	}
+	return nil
+}
+
 func (s *Schema) InterpolateDefaults(node *YispNode) error {
 	switch s.Type {
 	case "array":
-- 
2.43.0


From 4dfcbec5f67dca7311e0848073e5a5f05b683c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 09/54] fix: defaults are added with their own kind, through
 references and without failing on missing containers

---
 core/schema.go | 162 ++++++++++++++++++++++++++++++++-----------------
 core/util.go   |  13 ----
 2 files changed, 107 insertions(+), 68 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 02c6878..3638597 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -15,17 +15,6 @@ import (
 	"unicode/utf8"
 )
 
-var schemaTypeToKind = map[string]Kind{
-	"null":     KindNull,
-	"boolean":  KindBool,
-	"integer":  KindInt,
-	"float":    KindFloat,
-	"string":   KindString,
-	"array":    KindArray,
-	"object":   KindMap,
-	"function": KindLambda,
-}
-
 type Schema struct {
 	ID                   string             `json:"$id,omitempty"`
 	Ref                  string             `json:"$ref,omitempty"`
@@ -493,18 +482,26 @@ func (s *Schema) validateNumber(node *YispNode) error {
 	return nil
 }
 
+// InterpolateDefaults adds the missing properties that have a default.
+// Values of another kind than the schema's are left for Validate to report.
 func (s *Schema) InterpolateDefaults(node *YispNode) error {
+	if s.Ref != "" {
+		refSchema, err := LoadSchemaFromID(s.Ref)
+		if err != nil {
+			return NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to load schema %s", s.Ref), err)
+		}
+		return refSchema.InterpolateDefaults(node)
+	}
+
+	if s.OneOf != nil {
+		return nil
+	}
+
 	switch s.Type {
 	case "array":
-		if node.Kind != KindArray {
-			return NewEvaluationError(node, fmt.Sprintf("expected array, got %s", node.Kind))
-		}
-		if s.Items == nil {
-			return nil // No items schema to interpolate defaults for
-		}
 		arr, ok := node.Value.([]any)
-		if !ok {
-			return NewEvaluationError(node, fmt.Sprintf("expected array, got %T", node.Value))
+		if !ok || s.Items == nil {
+			return nil
 		}
 		for i, item := range arr {
 			itemNode, ok := item.(*YispNode)
@@ -512,47 +509,27 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 				return NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
 			}
 			if err := s.Items.InterpolateDefaults(itemNode); err != nil {
-				return NewEvaluationError(node, fmt.Sprintf("failed to interpolate defaults for array item %d: %v", i, err))
+				return NewEvaluationErrorWithParent(itemNode, fmt.Sprintf("failed to interpolate defaults for array item %d", i), err)
 			}
 		}
-		return nil
 	case "object":
-		if node.Kind != KindMap {
-			return NewEvaluationError(node, fmt.Sprintf("expected map, got %s", node.Kind))
-		}
-		if node.Value == nil {
-			node.Value = NewYispMap()
-		}
 		m, ok := node.Value.(*YispMap)
 		if !ok {
-			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
+			return nil
 		}
-		for key, subSchema := range s.Properties {
+		for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
+			subSchema := s.Properties[key]
 			item, ok := m.Get(key)
 			if !ok {
 				if slices.Contains(s.Required, key) {
-					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
-				}
-				if subSchema.Default != nil {
-					defaultNode := &YispNode{
-						Kind:  schemaTypeToKind[subSchema.Type],
-						Value: subSchema.Default,
-						Tag:   node.Tag,
-						Attr:  node.Attr,
-						Type:  subSchema,
-					}
-					m.Set(key, defaultNode)
-					continue
+					continue // reported by Validate
 				}
-				dummyNode := &YispNode{
-					Kind: schemaTypeToKind[subSchema.Type],
-				}
-				err := subSchema.InterpolateDefaults(dummyNode)
+				defaultNode, err := subSchema.defaultNode(node, nil)
 				if err != nil {
-					return NewEvaluationError(node, fmt.Sprintf("failed to interpolate dummy Node %v", err))
+					return NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to interpolate defaults for property %s", key), err)
 				}
-				if !IsZero(dummyNode.Value) {
-					m.Set(key, dummyNode)
+				if defaultNode != nil {
+					m.Set(key, defaultNode)
 				}
 				continue
 			}
@@ -561,12 +538,88 @@ func (s *Schema) InterpolateDefaults(node *YispNode) error {
 				return NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
 			}
 			if err := subSchema.InterpolateDefaults(itemNode); err != nil {
-				return NewEvaluationError(node, fmt.Sprintf("failed to interpolate defaults for property %s: %v", key, err))
+				return NewEvaluationErrorWithParent(itemNode, fmt.Sprintf("failed to interpolate defaults for property %s", key), err)
+			}
+		}
+	}
+	return nil
+}
+
+// defaultNode makes the value of a missing property of parent, nil if it has no default.
+// refs are the references that led here.
+func (s *Schema) defaultNode(parent *YispNode, refs []string) (*YispNode, error) {
+	if s.Ref != "" {
+		if slices.Contains(refs, s.Ref) {
+			return nil, nil
+		}
+		refSchema, err := LoadSchemaFromID(s.Ref)
+		if err != nil {
+			return nil, NewEvaluationErrorWithParent(parent, fmt.Sprintf("failed to load schema %s", s.Ref), err)
+		}
+		return refSchema.defaultNode(parent, append(slices.Clone(refs), s.Ref))
+	}
+
+	if s.Default != nil {
+		node, err := ParseAny("", s.Default)
+		if err != nil {
+			return nil, NewEvaluationErrorWithParent(parent, "invalid default", err)
+		}
+		s.adjustNumbers(node)
+		node.Attr = Attribute{Sources: parent.Attr.Sources}
+		node.Type = s
+		return node, nil
+	}
+
+	// an object is only made to hold the defaults of its properties
+	if s.Type != "object" || s.OneOf != nil || len(s.Required) > 0 {
+		return nil, nil
+	}
+	m := NewYispMap()
+	for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
+		item, err := s.Properties[key].defaultNode(parent, refs)
+		if err != nil {
+			return nil, err
+		}
+		if item != nil {
+			m.Set(key, item)
+		}
+	}
+	if m.Len() == 0 {
+		return nil, nil
+	}
+	return &YispNode{
+		Kind:  KindMap,
+		Value: m,
+		Attr:  Attribute{Sources: parent.Attr.Sources},
+	}, nil
+}
+
+// adjustNumbers gives the numbers of a default the kinds the schema asks for
+// (JSON does not tell 1 from 1.0)
+func (s *Schema) adjustNumbers(node *YispNode) {
+	switch value := node.Value.(type) {
+	case int:
+		if s.Type == "float" {
+			node.Kind = KindFloat
+			node.Value = float64(value)
+		}
+	case float64:
+		if s.Type == "integer" && value == math.Trunc(value) && math.Abs(value) < 1<<63 {
+			node.Kind = KindInt
+			node.Value = int(value)
+		}
+	case []any:
+		for _, item := range value {
+			if itemNode, ok := item.(*YispNode); ok && s.Items != nil {
+				s.Items.adjustNumbers(itemNode)
+			}
+		}
+	case *YispMap:
+		for key, item := range value.AllFromFront() {
+			if itemNode, ok := item.(*YispNode); ok && s.Properties[key] != nil {
+				s.Properties[key].adjustNumbers(itemNode)
 			}
 		}
-		return nil
-	default:
-		return nil
 	}
 }
 
@@ -575,17 +628,16 @@ func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
 	node = node.DeepCopy()
 	err := s.InterpolateDefaults(node)
 	if err != nil {
-		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
+		return nil, err
 	}
 	err = s.Validate(node)
 	if err != nil {
-		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
+		return nil, err
 	}
 
 	node.Type = s
 
 	return node, nil
-
 }
 
 func (s *Schema) Equals(other *Schema) bool {
diff --git a/core/util.go b/core/util.go
index 7beca78..e88e9ed 100644
--- a/core/util.go
+++ b/core/util.go
@@ -243,19 +243,6 @@ func mergedType(dst, src *YispNode) *Schema {
 	return dst.Type
 }
 
-func IsZero(v any) bool {
-	if v == nil {
-		return true
-	}
-
-	switch v := v.(type) {
-	case *YispMap:
-		return v.Len() == 0
-	default:
-		panic("iszero")
-	}
-}
-
 func RenderCode(file string, line, after, before int, comments []Comment) (string, error) {
 	f, err := os.Open(file)
 	if err != nil {
-- 
2.43.0


From 8dea641ed5ce648b86b227bfb88be3b71cab4f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 10/54] fix: data from JSON and YAML keeps integers as
 integers, gets its keys in a fixed order and must be one complete value

---
 core/parse.go   | 53 ++++++++++++++++++++++++++++++++++++----
 core/schema.go  | 64 ++++++++++++++++++++++++++++++-------------------
 engine/apply.go |  8 +++----
 3 files changed, 92 insertions(+), 33 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index 5fa819c..b214908 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -2,15 +2,29 @@ package core
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
+	"maps"
+	"math"
 	"reflect"
+	"slices"
+	"strconv"
+	"strings"
 
 	"gopkg.in/yaml.v3"
 )
 
 func ParseAny(filename string, v any) (*YispNode, error) {
 
+	if number, ok := v.(json.Number); ok {
+		var err error
+		v, err = parseNumber(number)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	typ := reflect.TypeOf(v)
 	if typ == nil {
 		return &YispNode{
@@ -39,10 +53,26 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 				},
 			},
 		}, nil
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return &YispNode{
 			Kind:  KindInt,
-			Value: v,
+			Value: int(reflect.ValueOf(v).Int()),
+			Attr: Attribute{
+				Sources: []FilePos{
+					{
+						File: filename,
+					},
+				},
+			},
+		}, nil
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		value := reflect.ValueOf(v).Uint()
+		if value > math.MaxInt {
+			return nil, fmt.Errorf("integer out of range: %d", value)
+		}
+		return &YispNode{
+			Kind:  KindInt,
+			Value: int(value),
 			Attr: Attribute{
 				Sources: []FilePos{
 					{
@@ -54,7 +84,7 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 	case reflect.Float32, reflect.Float64:
 		return &YispNode{
 			Kind:  KindFloat,
-			Value: v,
+			Value: reflect.ValueOf(v).Float(),
 			Attr: Attribute{
 				Sources: []FilePos{
 					{
@@ -82,8 +112,8 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 			return nil, fmt.Errorf("expected map[string]any, got %T", v)
 		}
 
-		for key, value := range dict {
-			itemNode, err := ParseAny(filename, value)
+		for _, key := range slices.Sorted(maps.Keys(dict)) {
+			itemNode, err := ParseAny(filename, dict[key])
 			if err != nil {
 				return nil, err
 			}
@@ -132,12 +162,25 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 	}
 }
 
+// parseNumber keeps the integers of a JSON text apart from its floats
+func parseNumber(number json.Number) (any, error) {
+	text := number.String()
+	if strings.ContainsAny(text, ".eE") {
+		return strconv.ParseFloat(text, 64)
+	}
+	return strconv.Atoi(text)
+}
+
 func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 	var data any
 	decoder := json.NewDecoder(reader)
+	decoder.UseNumber()
 	if err := decoder.Decode(&data); err != nil {
 		return nil, fmt.Errorf("failed to decode JSON: %v", err)
 	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return nil, errors.New("failed to decode JSON: unexpected text after the value")
+	}
 
 	node, err := ParseAny(filename, data)
 	if err != nil {
diff --git a/core/schema.go b/core/schema.go
index 3638597..055e47a 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -1,8 +1,10 @@
 package core
 
 import (
+	"bytes"
 	"encoding/base64"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"maps"
@@ -96,8 +98,7 @@ func (s *Schema) GetAdditionalProperties() any {
 		if err != nil {
 			return fmt.Sprintf("failed to marshal additionalProperties: %v", err)
 		}
-		var additionalSchema *Schema
-		err = json.Unmarshal(jsonStr, &additionalSchema)
+		additionalSchema, err := DecodeSchema(bytes.NewReader(jsonStr))
 		if err != nil {
 			return fmt.Sprintf("failed to unmarshal additionalProperties: %v", err)
 		}
@@ -132,13 +133,41 @@ func (s *Schema) ToYispNode() (*YispNode, error) {
 		return nil, err
 	}
 
-	var anyValue any
-	err = json.Unmarshal(jsonStr, &anyValue)
-	if err != nil {
+	return ParseJson("", bytes.NewReader(jsonStr))
+}
+
+// DecodeSchema reads a schema from its JSON text
+func DecodeSchema(reader io.Reader) (*Schema, error) {
+	decoder := json.NewDecoder(reader)
+	decoder.UseNumber()
+	var schema *Schema
+	if err := decoder.Decode(&schema); err != nil {
+		return nil, err
+	}
+	if err := schema.checkNull(); err != nil {
 		return nil, err
 	}
+	return schema, nil
+}
 
-	return ParseAny("", anyValue)
+// checkNull reports a null in the place of a schema
+func (s *Schema) checkNull() error {
+	if s == nil {
+		return errors.New("a schema must not be null")
+	}
+	children := slices.Concat(s.OneOf, s.Arguments, slices.Collect(maps.Values(s.Properties)))
+	if s.Items != nil {
+		children = append(children, s.Items)
+	}
+	if s.Returns != nil {
+		children = append(children, s.Returns)
+	}
+	for _, child := range children {
+		if err := child.checkNull(); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func LoadSchemaFromURL(url string) (*Schema, error) {
@@ -152,13 +181,7 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 	file, err := os.Open(schemasPath)
 	if err == nil {
 		defer file.Close()
-		var schema Schema
-		decoder := json.NewDecoder(file)
-		err = decoder.Decode(&schema)
-		if err != nil {
-			return nil, err
-		}
-		return &schema, nil
+		return DecodeSchema(file)
 	} else {
 		resp, err := http.Get(url)
 		if err != nil {
@@ -175,8 +198,7 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 			return nil, err
 		}
 
-		var schema Schema
-		err = json.Unmarshal(body, &schema)
+		schema, err := DecodeSchema(bytes.NewReader(body))
 		if err != nil {
 			return nil, err
 		}
@@ -193,12 +215,12 @@ func LoadSchemaFromURL(url string) (*Schema, error) {
 		defer file.Close()
 
 		encoder := json.NewEncoder(file)
-		err = encoder.Encode(&schema)
+		err = encoder.Encode(schema)
 		if err != nil {
 			return nil, err
 		}
 
-		return &schema, nil
+		return schema, nil
 	}
 }
 
@@ -220,13 +242,7 @@ func LoadSchemaFromID(id string) (*Schema, error) {
 	}
 	defer file.Close()
 
-	var schema Schema
-	decoder := json.NewDecoder(file)
-	err = decoder.Decode(&schema)
-	if err != nil {
-		return nil, err
-	}
-	return &schema, nil
+	return DecodeSchema(file)
 }
 
 func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
diff --git a/engine/apply.go b/engine/apply.go
index d5b7204..957f41e 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -1,6 +1,7 @@
 package engine
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"os"
@@ -427,7 +428,7 @@ func opPipeline(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.
 
 func opSchema(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 	if len(cdr) != 1 {
-		return nil, core.NewEvaluationError(nil, fmt.Sprintf("sha256 requires 1 argument, got %d", len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("schema requires 1 argument, got %d", len(cdr)))
 	}
 	node := cdr[0]
 	if node.Kind != core.KindMap {
@@ -443,15 +444,14 @@ func opSchema(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 		return nil, core.NewEvaluationErrorWithParent(node, "failed to marshal schema", err)
 	}
 
-	var schema core.Schema
-	err = json.Unmarshal(schemaBytes, &schema)
+	schema, err := core.DecodeSchema(bytes.NewReader(schemaBytes))
 	if err != nil {
 		return nil, core.NewEvaluationErrorWithParent(node, "failed to unmarshal schema", err)
 	}
 
 	return &core.YispNode{
 		Kind:  core.KindType,
-		Value: &schema,
+		Value: schema,
 		Attr:  node.Attr,
 	}, nil
 
-- 
2.43.0


From a1452f0ae40d318a929c29386ef2dea0facd004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:39 +0000
Subject: [PATCH 11/54] fix: rendering keeps the value of floats and the text
 of keys, leaves special objects out of lists and maps and reports errors

---
 engine/render.go | 56 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 91a17fc..23c9849 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -3,6 +3,9 @@ package engine
 import (
 	"bytes"
 	"fmt"
+	"math"
+	"strconv"
+	"strings"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -55,7 +58,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	case core.KindFloat:
 		return &yaml.Node{
 			Kind:        yaml.ScalarNode,
-			Value:       fmt.Sprintf("%f", node.Value),
+			Value:       formatFloat(node.Value),
 			Tag:         "!!float",
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
@@ -79,17 +82,20 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 		if !ok {
 			return nil, fmt.Errorf("invalid array value. Actual type: %T", node.Value)
 		}
-		results := make([]*yaml.Node, len(arr))
-		for i, item := range arr {
+		results := make([]*yaml.Node, 0, len(arr))
+		for _, item := range arr {
 			node, ok := item.(*core.YispNode)
 			if !ok {
 				return nil, fmt.Errorf("invalid item type: %T", item)
 			}
-			var err error
-			results[i], err = e.renderYamlNodes(node)
+			content, err := e.renderYamlNodes(node)
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // special object
+				continue
+			}
+			results = append(results, content)
 		}
 		return &yaml.Node{
 			Kind:        yaml.SequenceNode,
@@ -115,10 +121,14 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			if err != nil {
 				return nil, err
 			}
+			if content == nil { // special object
+				continue
+			}
 
 			results = append(results, &yaml.Node{
 				Kind:        yaml.ScalarNode,
 				Value:       key,
+				Tag:         "!!str",
 				HeadComment: node.Attr.KeyHeadComment,
 				LineComment: e.getLineComment(node),
 				FootComment: node.Attr.KeyFootComment,
@@ -206,6 +216,27 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	return nil, nil
 }
 
+// formatFloat writes a float so that it reads back as the same float
+func formatFloat(value any) string {
+	f, ok := value.(float64)
+	if !ok {
+		return fmt.Sprintf("%v", value)
+	}
+	switch {
+	case math.IsNaN(f):
+		return ".nan"
+	case math.IsInf(f, 1):
+		return ".inf"
+	case math.IsInf(f, -1):
+		return "-.inf"
+	}
+	text := strconv.FormatFloat(f, 'g', -1, 64)
+	if !strings.ContainsAny(text, ".e") {
+		text += ".0"
+	}
+	return text
+}
+
 func (e *engine) Render(node *core.YispNode) (string, error) {
 
 	if node.Kind == core.KindArray && node.IsDocumentRoot {
@@ -231,9 +262,15 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 				continue
 			}
 
-			enc.Encode(rendered)
+			err = enc.Encode(rendered)
+			if err != nil {
+				return "", err
+			}
+		}
+		err := enc.Close()
+		if err != nil {
+			return "", err
 		}
-		enc.Close()
 		return buf.String(), nil
 
 	} else {
@@ -241,7 +278,10 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		if err != nil {
 			return "", err
 		}
-		b, _ := yaml.Marshal(rendered)
+		b, err := yaml.Marshal(rendered)
+		if err != nil {
+			return "", err
+		}
 		return string(b), nil
 	}
 }
-- 
2.43.0


From 5a8ae54348cae21dca5d2118d57d27f849c40c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 12/54] fix: scalars are read in every YAML 1.2 core spelling
 and a symbol named like a special form is an ordinary symbol

---
 engine/eval.go | 29 ++++++++++++++++++++---------
 engine/util.go | 28 ++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index 6f1a9dd..43d5e43 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -2,7 +2,6 @@ package engine
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/totegamma/yisp/core"
@@ -57,9 +56,21 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 
 	case core.KindBool:
-		val := false
-		if node.Value == "true" {
-			val = true
+		val, ok := node.Value.(bool)
+		if !ok {
+			bStr, ok := node.Value.(string)
+			if !ok {
+				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid bool type: %T", node.Value))
+			}
+
+			switch strings.ToLower(bStr) {
+			case "true":
+				val = true
+			case "false":
+				val = false
+			default:
+				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid bool value: %s", bStr))
+			}
 		}
 		result = &core.YispNode{
 			Kind:  core.KindBool,
@@ -79,7 +90,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			}
 
 			var err error
-			f, err = strconv.ParseFloat(fStr, 64)
+			f, err = parseFloat(fStr)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid float value: %s", fStr))
 			}
@@ -103,7 +114,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			}
 
 			var err error
-			i, err = strconv.Atoi(iStr)
+			i, err = parseInt(iStr)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid int value: %s", iStr))
 			}
@@ -145,9 +156,9 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			}
 
 			// check special forms
-			op, ok := nodes[0].Value.(string)
-			if !ok {
-				op = ""
+			op := ""
+			if nodes[0].Kind == core.KindString {
+				op, _ = nodes[0].Value.(string)
 			}
 			switch op {
 			case "if":
diff --git a/engine/util.go b/engine/util.go
index c111f91..2ab3169 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -2,7 +2,11 @@ package engine
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
+	"math"
+	"strconv"
+	"strings"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -93,6 +97,30 @@ func compareNumbers(cdr []*core.YispNode, opName string, cmp func(order int) boo
 	}, nil
 }
 
+// parseInt reads a YAML integer
+func parseInt(text string) (int, error) {
+	text = strings.ReplaceAll(text, "_", "")
+	i, err := strconv.Atoi(text)
+	if err == nil || errors.Is(err, strconv.ErrRange) {
+		return i, err
+	}
+	i64, err := strconv.ParseInt(text, 0, 64) // 0x, 0o and 0b
+	return int(i64), err
+}
+
+// parseFloat reads a YAML float
+func parseFloat(text string) (float64, error) {
+	switch strings.ToLower(text) {
+	case ".inf", "+.inf":
+		return math.Inf(1), nil
+	case "-.inf":
+		return math.Inf(-1), nil
+	case ".nan":
+		return math.NaN(), nil
+	}
+	return strconv.ParseFloat(strings.ReplaceAll(text, "_", ""), 64)
+}
+
 func pad(length int) string {
 	result := ""
 	for range length {
-- 
2.43.0


From d3f6a3fd12aeac79519f5322048722cd7a83ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:41 +0000
Subject: [PATCH 13/54] fix: lambda calls check the number of arguments, symbol
 paths with empty or optional parts and malformed parameter lists do not panic

---
 core/env.go     | 16 +++-------------
 engine/apply.go |  4 ++++
 engine/eval.go  | 28 ++++++++++++++++++----------
 3 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/core/env.go b/core/env.go
index f99aa75..a5e5058 100644
--- a/core/env.go
+++ b/core/env.go
@@ -89,14 +89,9 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 
 	split := strings.Split(key, ".")
 
-	fst := split[0]
-	optional := false
-	if fst[len(fst)-1] == '?' {
-		fst = fst[:len(fst)-1]
-		optional = true
-	}
+	fst, optional := strings.CutSuffix(split[0], "?")
 
-	value, ok := e.Vars[split[0]]
+	value, ok := e.Vars[fst]
 	if !ok {
 		if e.Parent != nil {
 			return e.Parent.Get(key)
@@ -111,12 +106,7 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 	}
 
 	for _, key := range split[1:] {
-		if key[len(key)-1] == '?' {
-			key = key[:len(key)-1]
-			optional = true
-		} else {
-			optional = false
-		}
+		key, optional := strings.CutSuffix(key, "?")
 
 		maps, ok := value.Value.(map[string]*YispNode)
 		if !ok {
diff --git a/engine/apply.go b/engine/apply.go
index 957f41e..2dba4a0 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -24,6 +24,10 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			return nil, core.NewEvaluationError(car, fmt.Sprintf("invalid lambda type: %T", car.Value))
 		}
 
+		if len(cdr) != len(lambda.Arguments) {
+			return nil, core.NewEvaluationError(car, fmt.Sprintf("lambda requires %d arguments, got %d", len(lambda.Arguments), len(cdr)))
+		}
+
 		newEnv := lambda.Clojure.CreateChild()
 		for i, node := range cdr {
 			if lambda.Arguments[i].Schema != nil {
diff --git a/engine/eval.go b/engine/eval.go
index 43d5e43..444da34 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -195,14 +195,18 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				bodyNode := nodes[2]
 
 				params := make([]core.TypedSymbol, 0)
-				for _, item := range paramsNode.Value.([]any) {
+				paramItems, ok := paramsNode.Value.([]any)
+				if !ok {
+					return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("invalid params type: %T", paramsNode.Value))
+				}
+				for _, item := range paramItems {
 					paramNode, ok := item.(*core.YispNode)
 					if !ok {
-						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid param type: %T", item))
+						return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("invalid param type: %T", item))
 					}
 					param, ok := paramNode.Value.(string)
 					if !ok {
-						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid param value: %T", paramNode.Value))
+						return nil, core.NewEvaluationError(paramNode, fmt.Sprintf("invalid param value: %T", paramNode.Value))
 					}
 
 					var schema *core.Schema
@@ -211,14 +215,14 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 					if typeName != "" && !strings.HasPrefix(typeName, "!") {
 						typeNode, ok := env.Get(typeName)
 						if !ok {
-							return nil, core.NewEvaluationError(nil, fmt.Sprintf("undefined type: %s", typeName))
+							return nil, core.NewEvaluationError(paramNode, fmt.Sprintf("undefined type: %s", typeName))
 						}
 						if typeNode.Kind != core.KindType {
-							return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s is not a type. actual: %s", typeName, typeNode.Kind))
+							return nil, core.NewEvaluationError(paramNode, fmt.Sprintf("%s is not a type. actual: %s", typeName, typeNode.Kind))
 						}
 						schema, ok = typeNode.Value.(*core.Schema)
 						if !ok {
-							return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid type value: %T", typeNode.Value))
+							return nil, core.NewEvaluationError(paramNode, fmt.Sprintf("invalid type value: %T", typeNode.Value))
 						}
 					}
 
@@ -234,14 +238,14 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				if typeName != "" && !strings.HasPrefix(typeName, "!") {
 					typeNode, ok := env.Get(typeName)
 					if !ok {
-						return nil, core.NewEvaluationError(nil, fmt.Sprintf("undefined type: %s", typeName))
+						return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("undefined type: %s", typeName))
 					}
 					if typeNode.Kind != core.KindType {
-						return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s is not a type. actual: %s", typeName, typeNode.Kind))
+						return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("%s is not a type. actual: %s", typeName, typeNode.Kind))
 					}
 					schema, ok = typeNode.Value.(*core.Schema)
 					if !ok {
-						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid type value: %T", typeNode.Value))
+						return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("invalid type value: %T", typeNode.Value))
 					}
 				}
 
@@ -388,7 +392,11 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 						results.Set(k, v)
 					}
 				} else if val.Kind == core.KindArray {
-					for _, item := range val.Value.([]any) {
+					arr, ok := val.Value.([]any)
+					if !ok {
+						return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid merge item type: %T", val.Value))
+					}
+					for _, item := range arr {
 						node, ok := item.(*core.YispNode)
 						if !ok {
 							return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid merge item type: %T", item))
-- 
2.43.0


From ed4800b64b01c4f81120f066aee8bc15180625ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 14/54] fix: keys that are not scalars are errors, and the
 condition may be an imported module

---
 core/util.go    |  6 +++++-
 engine/parse.go | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/core/util.go b/core/util.go
index e88e9ed..07a0c39 100644
--- a/core/util.go
+++ b/core/util.go
@@ -422,7 +422,11 @@ func IsTruthy(node *YispNode) (bool, error) {
 	case KindMap:
 		v, ok := node.Value.(*YispMap)
 		if !ok {
-			return false, fmt.Errorf("expected *YispMap, got %T", node.Value)
+			module, ok := node.Value.(map[string]*YispNode)
+			if !ok {
+				return false, fmt.Errorf("expected *YispMap, got %T", node.Value)
+			}
+			return len(module) != 0, nil
 		}
 		return v.Len() != 0, nil
 	case KindLambda:
diff --git a/engine/parse.go b/engine/parse.go
index 9232107..81306ee 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -1,6 +1,8 @@
 package engine
 
 import (
+	"fmt"
+
 	"github.com/rs/xid"
 
 	"github.com/totegamma/yisp/core"
@@ -15,9 +17,12 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 	switch node.Kind {
 	case yaml.DocumentNode:
 		if len(node.Content) == 0 {
-			return nil, nil
+			return nil, fmt.Errorf("%s: empty document", filename)
 		}
 		result, err = Parse(filename, node.Content[0])
+		if err != nil {
+			return nil, err
+		}
 		result.Attr = core.Attribute{
 			Sources: []core.FilePos{
 				{
@@ -67,6 +72,10 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 			keyNode := node.Content[i]
 			valueNode := node.Content[i+1]
 
+			if keyNode.Kind != yaml.ScalarNode {
+				return nil, fmt.Errorf("%s:%d:%d: only scalars can be map keys", filename, keyNode.Line, keyNode.Column)
+			}
+
 			key := keyNode.Value
 			if key == "<<" {
 				key = core.YISP_SPECIAL_MERGE_KEY + xid.New().String()
@@ -160,6 +169,10 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 		}
 	}
 
+	if result == nil {
+		return nil, fmt.Errorf("%s:%d:%d: unexpected kind of YAML node", filename, node.Line, node.Column)
+	}
+
 	if node.Anchor != "" {
 		result.Anchor = node.Anchor
 	}
-- 
2.43.0


From 874e5f0690fb224fa462a3342c5728704d617410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 15/54] fix: files.glob reads the files it found, and krm
 passes items that are not maps through

---
 cmd/krm.go   | 4 ++--
 lib/files.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/krm.go b/cmd/krm.go
index 1a19199..d7b56d5 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -69,8 +69,8 @@ var krmCmd = &cobra.Command{
 
 		var items []any
 		for _, item := range krmInput.Items {
-			apiVersion, ok := item.(map[string]any)["apiVersion"]
-			if ok && apiVersion == "krm.yisp.gammalab.net/v1" {
+			resource, ok := item.(map[string]any)
+			if ok && resource["apiVersion"] == "krm.yisp.gammalab.net/v1" {
 				continue
 			}
 			items = append(items, item)
diff --git a/lib/files.go b/lib/files.go
index 7225bf8..8561263 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -46,7 +46,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 			}
 
 			filename := filepath.Base(path)
-			body, err := os.ReadFile(path)
+			body, err := os.ReadFile(filepath.Join(filepath.Dir(node.Attr.File()), path))
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to read file: %s", path))
 			}
-- 
2.43.0


From a7fea89ca8235d8bde6d71f60bb30dece340fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 16/54] fix: strings.quote removes only its own quotes, lists
 and maps are formatted by content, strings.replace takes at most 4 arguments

---
 lib/strings.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lib/strings.go b/lib/strings.go
index c1cfc6d..8744c3b 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -3,6 +3,7 @@ package lib
 import (
 	"crypto/sha256"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/totegamma/yisp/core"
@@ -76,21 +77,19 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 	case core.KindInt:
 		value = fmt.Sprintf("%d", cdr[0].Value)
 	case core.KindFloat:
-		value = fmt.Sprintf("%f", cdr[0].Value)
-	case core.KindBool:
-		if cdr[0].Value.(bool) {
-			value = "true"
-		} else {
-			value = "false"
-		}
+		f, _ := cdr[0].Value.(float64)
+		value = strconv.FormatFloat(f, 'f', -1, 64)
 	default:
-		value = fmt.Sprintf("%v", cdr[0].Value)
+		native, err := cdr[0].ToNative()
+		if err != nil {
+			return nil, core.NewEvaluationErrorWithParent(cdr[0], "failed to quote", err)
+		}
+		value = fmt.Sprintf("%v", native)
 	}
 
 	node := cdr[0]
 	str := fmt.Sprintf("%q", value)
-	str = strings.Trim(str, "\"")
-	str = strings.Trim(str, "'")
+	str = str[1 : len(str)-1] // without the quotes
 
 	return &core.YispNode{
 		Kind:  core.KindString,
@@ -115,7 +114,11 @@ func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 
 	args := make([]any, len(argsNode))
 	for i, arg := range argsNode {
-		args[i] = arg.Value
+		native, err := arg.ToNative()
+		if err != nil {
+			return nil, core.NewEvaluationErrorWithParent(arg, "failed to format", err)
+		}
+		args[i] = native
 	}
 
 	return &core.YispNode{
@@ -169,7 +172,7 @@ func opJoin(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 }
 
 func opReplace(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
-	if len(cdr) < 3 {
+	if len(cdr) < 3 || len(cdr) > 4 {
 		return nil, core.NewEvaluationError(nil, fmt.Sprintf("replace requires 3-4 arguments, got %d", len(cdr)))
 	}
 
-- 
2.43.0


From 89e12ef332188036d55e33fd3207896b2758f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 17/54] fix: filter and flatten splice into the stream only
 what came from documents, iota refuses lists that do not fit in memory

---
 lib/lists.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/lists.go b/lib/lists.go
index 8e4b143..f612ec5 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -150,7 +150,6 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 
 	arrNode := cdr[0]
 	fnNode := cdr[1]
-	isDocumentRoot := true
 	filtered := make([]any, 0)
 
 	if arrNode.Kind != core.KindArray {
@@ -167,9 +166,6 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 		if !ok {
 			return nil, core.NewEvaluationError(arrNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		if !itemNode.IsDocumentRoot {
-			isDocumentRoot = false
-		}
 		args := []*core.YispNode{itemNode}
 		rawResult, err := e.Apply(fnNode, args, env, mode)
 		if err != nil {
@@ -189,14 +185,14 @@ func opFilter(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 	return &core.YispNode{
 		Kind:           core.KindArray,
 		Value:          filtered,
-		IsDocumentRoot: isDocumentRoot,
+		IsDocumentRoot: arrNode.IsDocumentRoot,
 	}, nil
 }
 
 func opFlatten(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
 	flattened := make([]any, 0)
-	isDocumentRoot := true
+	isDocumentRoot := len(cdr) > 0
 
 	for _, node := range cdr {
 		if !node.IsDocumentRoot {
@@ -323,6 +319,9 @@ func opReduce(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 	return accumulator.(*core.YispNode), nil
 }
 
+// maxIota is the length of the longest list iota makes
+const maxIota = 1_000_000
+
 // opIota generates a list of integers from 0 to n-1
 func opIota(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 	if len(cdr) < 1 {
@@ -339,6 +338,10 @@ func opIota(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 		return nil, core.NewEvaluationError(nNode, "iota requires a non-negative integer")
 	}
 
+	if n > maxIota {
+		return nil, core.NewEvaluationError(nNode, fmt.Sprintf("iota makes at most %d elements", maxIota))
+	}
+
 	start := 0
 	if len(cdr) >= 2 {
 		startNode := cdr[1]
-- 
2.43.0


From f5398f039cd4f029c314db1cc44362c6f60ade4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 18/54] fix: included YAML keeps every document of a stream and
 dates as strings

---
 core/parse.go | 45 ++++++++++++++++++++++++++++++++++++++-------
 lib/yaml.go   | 27 ++++++++++++++++++++++-----
 2 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index b214908..c59fb6f 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -192,16 +192,47 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 
 // ParseYaml parses standard YAML (not yisp-extended YAML) into a YispNode
 func ParseYaml(filename string, reader io.Reader) (*YispNode, error) {
-	var data any
+	documents := make([]any, 0)
 	decoder := yaml.NewDecoder(reader)
-	if err := decoder.Decode(&data); err != nil {
-		return nil, fmt.Errorf("failed to decode YAML: %v", err)
+	for {
+		var root yaml.Node
+		err := decoder.Decode(&root)
+		if errors.Is(err, io.EOF) {
+			break
+		}
+		if err != nil {
+			return nil, fmt.Errorf("failed to decode YAML: %v", err)
+		}
+
+		datesToStrings(&root)
+		var data any
+		if err := root.Decode(&data); err != nil {
+			return nil, fmt.Errorf("failed to decode YAML: %v", err)
+		}
+
+		node, err := ParseAny(filename, data)
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse YAML: %v", err)
+		}
+		documents = append(documents, node)
 	}
 
-	node, err := ParseAny(filename, data)
-	if err != nil {
-		return nil, fmt.Errorf("failed to parse YAML: %v", err)
+	if len(documents) == 1 {
+		return documents[0].(*YispNode), nil
 	}
+	return &YispNode{
+		Kind:           KindArray,
+		Value:          documents,
+		IsDocumentRoot: true,
+	}, nil
+}
 
-	return node, nil
+// datesToStrings makes the dates of a document strings, as they are in yisp programs
+func datesToStrings(node *yaml.Node) {
+	if node.Kind == yaml.ScalarNode && node.Tag == "!!timestamp" {
+		node.Tag = "!!str"
+	}
+	for _, child := range node.Content {
+		datesToStrings(child)
+	}
 }
diff --git a/lib/yaml.go b/lib/yaml.go
index 4c5b98c..09785da 100644
--- a/lib/yaml.go
+++ b/lib/yaml.go
@@ -1,7 +1,9 @@
 package lib
 
 import (
+	"errors"
 	"fmt"
+	"io"
 	"strings"
 
 	"github.com/totegamma/yisp/core"
@@ -50,14 +52,19 @@ func opUnmarshal(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core
 		return nil, core.NewEvaluationError(node, "failed to create yaml decoder")
 	}
 
-	var resultNodes []any
+	resultNodes := make([]any, 0)
 	for {
+		var root yaml.Node
+		err := decoder.Decode(&root)
+		if errors.Is(err, io.EOF) {
+			break
+		}
 		var value any
-		err := decoder.Decode(&value)
+		if err == nil {
+			datesToStrings(&root)
+			err = root.Decode(&value)
+		}
 		if err != nil {
-			if err.Error() == "EOF" {
-				break
-			}
 			return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to decode yaml: `%s`", yamlStr), err)
 		}
 		parsedNode, err := core.ParseAny(node.Attr.File(), value)
@@ -73,3 +80,13 @@ func opUnmarshal(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core
 		Attr:  node.Attr,
 	}, nil
 }
+
+// datesToStrings makes the dates of a document strings, as they are in yisp programs
+func datesToStrings(node *yaml.Node) {
+	if node.Kind == yaml.ScalarNode && node.Tag == "!!timestamp" {
+		node.Tag = "!!str"
+	}
+	for _, child := range node.Content {
+		datesToStrings(child)
+	}
+}
-- 
2.43.0


From 7d9b5c4208cc6430bce08332b40301635c26af19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 19/54] fix: errors are located at the expression that caused
 them, also for computed values and top-level expressions

---
 core/error.go   | 4 ++++
 core/types.go   | 4 ++++
 engine/apply.go | 2 +-
 engine/parse.go | 8 +-------
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/core/error.go b/core/error.go
index fa5df4f..623057c 100644
--- a/core/error.go
+++ b/core/error.go
@@ -25,6 +25,10 @@ func NewEvaluationErrorWithParent(node *YispNode, message string, parent error)
 
 	p, ok := parent.(*ErrorTypeEvaluation)
 	if ok {
+		// an error about a computed value is located at the innermost expression with a position
+		if root := p.GetRoot(); !root.Node.hasPosition() && node.hasPosition() {
+			root.Node = node
+		}
 		return &ErrorTypeEvaluation{
 			Type:    "YispErrorEvaluation",
 			Node:    node,
diff --git a/core/types.go b/core/types.go
index bd41fdc..1117490 100644
--- a/core/types.go
+++ b/core/types.go
@@ -152,6 +152,10 @@ func (n *YispNode) String() string {
 	}
 }
 
+func (n *YispNode) hasPosition() bool {
+	return n != nil && n.Attr.Line() > 0
+}
+
 // DeepCopy returns a copy of the node that shares no list or map with it
 func (n *YispNode) DeepCopy() *YispNode {
 	if n == nil {
diff --git a/engine/apply.go b/engine/apply.go
index 2dba4a0..b4fa79b 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -25,7 +25,7 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 		}
 
 		if len(cdr) != len(lambda.Arguments) {
-			return nil, core.NewEvaluationError(car, fmt.Sprintf("lambda requires %d arguments, got %d", len(lambda.Arguments), len(cdr)))
+			return nil, core.NewEvaluationError(nil, fmt.Sprintf("lambda requires %d arguments, got %d", len(lambda.Arguments), len(cdr)))
 		}
 
 		newEnv := lambda.Clojure.CreateChild()
diff --git a/engine/parse.go b/engine/parse.go
index 81306ee..a925eae 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -24,13 +24,7 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 			return nil, err
 		}
 		result.Attr = core.Attribute{
-			Sources: []core.FilePos{
-				{
-					File:   filename,
-					Line:   node.Line,
-					Column: node.Column,
-				},
-			},
+			Sources:     result.Attr.Sources,
 			HeadComment: node.HeadComment,
 			LineComment: node.LineComment,
 			FootComment: node.FootComment,
-- 
2.43.0


From 631d276ef181efd414d6704ffdefe22a2e9bec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 20/54] fix: yaml.unmarshal of an alias without anchor is an
 error instead of a crash

---
 internal/yaml/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/yaml/decode.go b/internal/yaml/decode.go
index ae16220..a21d562 100644
--- a/internal/yaml/decode.go
+++ b/internal/yaml/decode.go
@@ -533,6 +533,9 @@ func (d *decoder) document(n *Node, out reflect.Value) (good bool) {
 }
 
 func (d *decoder) alias(n *Node, out reflect.Value) (good bool) {
+	if n.Alias == nil {
+		failf("unknown anchor '%s' referenced", n.Value)
+	}
 	if d.aliases[n] {
 		// TODO this could actually be allowed in some circumstances.
 		failf("anchor '%s' value contains itself", n.Value)
-- 
2.43.0


From d5dcad1834faab013108e6c3e57518f95fe49ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:37 +0000
Subject: [PATCH 21/54] fix: naming a function a second time does not change
 what its body refers to

---
 core/types.go  | 1 +
 engine/eval.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/types.go b/core/types.go
index 1117490..096307e 100644
--- a/core/types.go
+++ b/core/types.go
@@ -276,6 +276,7 @@ type TypedSymbol struct {
 }
 
 type Lambda struct {
+	Name      string // the name it was first given, which its body can refer to
 	Arguments []TypedSymbol
 	Returns   *Schema
 	Body      *YispNode
diff --git a/engine/eval.go b/engine/eval.go
index 444da34..7e435f5 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -493,7 +493,8 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 
 		if result.Kind == core.KindLambda {
 			lambda, ok := result.Value.(*core.Lambda)
-			if ok {
+			if ok && lambda.Name == "" {
+				lambda.Name = node.Anchor
 				lambda.Clojure.Set(node.Anchor, result)
 			}
 		}
-- 
2.43.0


From 6cf1168d77901274a220e85a7f3e9f85a662b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 22/54] fix: types with references or alternatives are
 structurally equal to themselves

---
 core/schema.go | 53 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 055e47a..88be1b3 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -657,6 +657,37 @@ func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
 }
 
 func (s *Schema) Equals(other *Schema) bool {
+	return s.equals(other, nil)
+}
+
+// equals compares structurally; compared are the pairs of references being compared
+func (s *Schema) equals(other *Schema, compared [][2]string) bool {
+
+	if s == nil || other == nil {
+		return s == other
+	}
+
+	if s.Ref != "" && other.Ref != "" {
+		refs := [2]string{s.Ref, other.Ref}
+		if s.Ref == other.Ref || slices.Contains(compared, refs) {
+			return true
+		}
+		compared = append(slices.Clone(compared), refs)
+	}
+	if s.Ref != "" {
+		refSchema, err := LoadSchemaFromID(s.Ref)
+		return err == nil && refSchema.equals(other, compared)
+	}
+	if other.Ref != "" {
+		refSchema, err := LoadSchemaFromID(other.Ref)
+		return err == nil && s.equals(refSchema, compared)
+	}
+
+	if s.OneOf != nil || other.OneOf != nil {
+		return s.OneOf != nil && other.OneOf != nil && slices.EqualFunc(s.OneOf, other.OneOf, func(a, b *Schema) bool {
+			return a.equals(b, compared)
+		})
+	}
 
 	if s.Type != other.Type {
 		return false
@@ -666,20 +697,14 @@ func (s *Schema) Equals(other *Schema) bool {
 	case "any", "null", "boolean", "integer", "float", "string":
 		return true
 	case "array":
-		if s.Items == nil && other.Items == nil {
-			return true
-		}
-		if s.Items == nil || other.Items == nil {
-			return false
-		}
-		return s.Items.Equals(other.Items)
+		return s.Items.equals(other.Items, compared)
 	case "object":
 		if len(s.Properties) != len(other.Properties) {
 			return false
 		}
 		for key, subSchema := range s.Properties {
 			otherSubSchema, ok := other.Properties[key]
-			if !ok || !subSchema.Equals(otherSubSchema) {
+			if !ok || !subSchema.equals(otherSubSchema, compared) {
 				return false
 			}
 		}
@@ -694,18 +719,12 @@ func (s *Schema) Equals(other *Schema) bool {
 			return false
 		}
 		for i, arg := range s.Arguments {
-			if !arg.Equals(other.Arguments[i]) {
+			if !arg.equals(other.Arguments[i], compared) {
 				return false
 			}
 		}
-		if s.Returns == nil && other.Returns == nil {
-			return true
-		}
-		if s.Returns == nil || other.Returns == nil {
-			return false
-		}
-		return s.Returns.Equals(other.Returns)
+		return s.Returns.equals(other.Returns, compared)
 	default:
-		return false
+		return true
 	}
 }
-- 
2.43.0


From 23e68691ae4c7d4800a54cea5a86089d22689d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:14 +0000
Subject: [PATCH 23/54] fix: 089 is an integer and 0o+1 a string

---
 internal/yaml/resolve.go | 55 ++++------------------------------------
 1 file changed, 5 insertions(+), 50 deletions(-)

diff --git a/internal/yaml/resolve.go b/internal/yaml/resolve.go
index 64ae888..a44b8a7 100644
--- a/internal/yaml/resolve.go
+++ b/internal/yaml/resolve.go
@@ -201,62 +201,17 @@ func resolve(tag string, in string) (rtag string, out interface{}) {
 			if err == nil {
 				return intTag, uintv
 			}
+			// 089 is no octal number, but a decimal one.
+			intv, err = strconv.ParseInt(plain, 10, 64)
+			if err == nil {
+				return intTag, int(intv)
+			}
 			if yamlStyleFloat.MatchString(plain) {
 				floatv, err := strconv.ParseFloat(plain, 64)
 				if err == nil {
 					return floatTag, floatv
 				}
 			}
-			if strings.HasPrefix(plain, "0b") {
-				intv, err := strconv.ParseInt(plain[2:], 2, 64)
-				if err == nil {
-					if intv == int64(int(intv)) {
-						return intTag, int(intv)
-					} else {
-						return intTag, intv
-					}
-				}
-				uintv, err := strconv.ParseUint(plain[2:], 2, 64)
-				if err == nil {
-					return intTag, uintv
-				}
-			} else if strings.HasPrefix(plain, "-0b") {
-				intv, err := strconv.ParseInt("-"+plain[3:], 2, 64)
-				if err == nil {
-					if true || intv == int64(int(intv)) {
-						return intTag, int(intv)
-					} else {
-						return intTag, intv
-					}
-				}
-			}
-			// Octals as introduced in version 1.2 of the spec.
-			// Octals from the 1.1 spec, spelled as 0777, are still
-			// decoded by default in v3 as well for compatibility.
-			// May be dropped in v4 depending on how usage evolves.
-			if strings.HasPrefix(plain, "0o") {
-				intv, err := strconv.ParseInt(plain[2:], 8, 64)
-				if err == nil {
-					if intv == int64(int(intv)) {
-						return intTag, int(intv)
-					} else {
-						return intTag, intv
-					}
-				}
-				uintv, err := strconv.ParseUint(plain[2:], 8, 64)
-				if err == nil {
-					return intTag, uintv
-				}
-			} else if strings.HasPrefix(plain, "-0o") {
-				intv, err := strconv.ParseInt("-"+plain[3:], 8, 64)
-				if err == nil {
-					if true || intv == int64(int(intv)) {
-						return intTag, int(intv)
-					} else {
-						return intTag, intv
-					}
-				}
-			}
 		default:
 			panic("internal error: missing handler for resolver table: " + string(rune(hint)) + " (with " + in + ")")
 		}
-- 
2.43.0


From 63facf9e4ff80a6bdd3fe70c2d8530d857550136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:42 +0000
Subject: [PATCH 24/54] fix: "\/" is a slash in double quoted strings

---
 internal/yaml/scannerc.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/yaml/scannerc.go b/internal/yaml/scannerc.go
index 0c203c4..0180d4d 100644
--- a/internal/yaml/scannerc.go
+++ b/internal/yaml/scannerc.go
@@ -2521,6 +2521,8 @@ func yaml_parser_scan_flow_scalar(parser *yaml_parser_t, token *yaml_token_t, si
 					s = append(s, '\x20')
 				case '"':
 					s = append(s, '"')
+				case '/':
+					s = append(s, '/')
 				case '\'':
 					s = append(s, '\'')
 				case '\\':
-- 
2.43.0


From 7710077d1625b2585f51aed36635aefd2ee69a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 25/54] fix: included and unmarshalled YAML has the keys and
 integers of inline YAML

---
 core/parse.go | 52 ++++++++++++++++++++++++++++++++++-----------------
 lib/yaml.go   | 41 +++-------------------------------------
 2 files changed, 38 insertions(+), 55 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index c59fb6f..74625f2 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -12,7 +12,7 @@ import (
 	"strconv"
 	"strings"
 
-	"gopkg.in/yaml.v3"
+	"github.com/totegamma/yisp/internal/yaml"
 )
 
 func ParseAny(filename string, v any) (*YispNode, error) {
@@ -192,19 +192,36 @@ func ParseJson(filename string, reader io.Reader) (*YispNode, error) {
 
 // ParseYaml parses standard YAML (not yisp-extended YAML) into a YispNode
 func ParseYaml(filename string, reader io.Reader) (*YispNode, error) {
+	documents, err := ParseYamlDocuments(filename, reader)
+	if err != nil {
+		return nil, err
+	}
+
+	if len(documents) == 1 {
+		return documents[0].(*YispNode), nil
+	}
+	return &YispNode{
+		Kind:           KindArray,
+		Value:          documents,
+		IsDocumentRoot: true,
+	}, nil
+}
+
+// ParseYamlDocuments parses each document of a standard YAML stream into a YispNode
+func ParseYamlDocuments(filename string, reader io.Reader) ([]any, error) {
 	documents := make([]any, 0)
 	decoder := yaml.NewDecoder(reader)
 	for {
 		var root yaml.Node
 		err := decoder.Decode(&root)
 		if errors.Is(err, io.EOF) {
-			break
+			return documents, nil
 		}
 		if err != nil {
 			return nil, fmt.Errorf("failed to decode YAML: %v", err)
 		}
 
-		datesToStrings(&root)
+		normalizeYaml(&root)
 		var data any
 		if err := root.Decode(&data); err != nil {
 			return nil, fmt.Errorf("failed to decode YAML: %v", err)
@@ -216,23 +233,24 @@ func ParseYaml(filename string, reader io.Reader) (*YispNode, error) {
 		}
 		documents = append(documents, node)
 	}
-
-	if len(documents) == 1 {
-		return documents[0].(*YispNode), nil
-	}
-	return &YispNode{
-		Kind:           KindArray,
-		Value:          documents,
-		IsDocumentRoot: true,
-	}, nil
 }
 
-// datesToStrings makes the dates of a document strings, as they are in yisp programs
-func datesToStrings(node *yaml.Node) {
-	if node.Kind == yaml.ScalarNode && node.Tag == "!!timestamp" {
+// normalizeYaml makes scalars and keys mean what they mean in yisp programs:
+// dates and keys are strings, and integers with leading zeros are decimal
+func normalizeYaml(node *yaml.Node) {
+	switch {
+	case node.Kind == yaml.ScalarNode && node.Tag == "!!timestamp":
 		node.Tag = "!!str"
+	case node.Kind == yaml.ScalarNode && node.Tag == "!!int":
+		if i, err := strconv.Atoi(strings.ReplaceAll(node.Value, "_", "")); err == nil {
+			node.Value = strconv.Itoa(i)
+		}
 	}
-	for _, child := range node.Content {
-		datesToStrings(child)
+	for i, child := range node.Content {
+		isKey := node.Kind == yaml.MappingNode && i%2 == 0 && child.Kind == yaml.ScalarNode
+		if isKey && child.Tag != "!!merge" {
+			child.Tag = "!!str"
+		}
+		normalizeYaml(child)
 	}
 }
diff --git a/lib/yaml.go b/lib/yaml.go
index 09785da..0c2a3ed 100644
--- a/lib/yaml.go
+++ b/lib/yaml.go
@@ -1,13 +1,10 @@
 package lib
 
 import (
-	"errors"
 	"fmt"
-	"io"
 	"strings"
 
 	"github.com/totegamma/yisp/core"
-	"github.com/totegamma/yisp/internal/yaml"
 )
 
 func init() {
@@ -47,31 +44,9 @@ func opUnmarshal(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core
 		return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid yaml string value: %T", node.Value))
 	}
 
-	decoder := yaml.NewDecoder(strings.NewReader(yamlStr))
-	if decoder == nil {
-		return nil, core.NewEvaluationError(node, "failed to create yaml decoder")
-	}
-
-	resultNodes := make([]any, 0)
-	for {
-		var root yaml.Node
-		err := decoder.Decode(&root)
-		if errors.Is(err, io.EOF) {
-			break
-		}
-		var value any
-		if err == nil {
-			datesToStrings(&root)
-			err = root.Decode(&value)
-		}
-		if err != nil {
-			return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to decode yaml: `%s`", yamlStr), err)
-		}
-		parsedNode, err := core.ParseAny(node.Attr.File(), value)
-		if err != nil {
-			return nil, core.NewEvaluationErrorWithParent(node, "failed to parse yaml node", err)
-		}
-		resultNodes = append(resultNodes, parsedNode)
+	resultNodes, err := core.ParseYamlDocuments(node.Attr.File(), strings.NewReader(yamlStr))
+	if err != nil {
+		return nil, core.NewEvaluationErrorWithParent(node, fmt.Sprintf("failed to decode yaml: `%s`", yamlStr), err)
 	}
 
 	return &core.YispNode{
@@ -80,13 +55,3 @@ func opUnmarshal(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core
 		Attr:  node.Attr,
 	}, nil
 }
-
-// datesToStrings makes the dates of a document strings, as they are in yisp programs
-func datesToStrings(node *yaml.Node) {
-	if node.Kind == yaml.ScalarNode && node.Tag == "!!timestamp" {
-		node.Tag = "!!str"
-	}
-	for _, child := range node.Content {
-		datesToStrings(child)
-	}
-}
-- 
2.43.0


From 388b72ebf46c266a7a1b6ce2b7e50b791c04823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:31 +0000
Subject: [PATCH 26/54] fix: line breaks at the start of a string are printed

---
 internal/yaml/emitterc.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index dde20e5..f7eb013 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -1898,6 +1898,9 @@ func yaml_emitter_write_literal_scalar(emitter *yaml_emitter_t, value []byte) bo
 	}
 	//emitter.indention = true
 	emitter.whitespace = true
+	if is_break(value, 0) && !put_break(emitter) { // end the line of the header
+		return false
+	}
 	breaks := true
 	for i := 0; i < len(value); {
 		if is_break(value, i) {
@@ -1936,13 +1939,16 @@ func yaml_emitter_write_folded_scalar(emitter *yaml_emitter_t, value []byte) boo
 
 	//emitter.indention = true
 	emitter.whitespace = true
+	if is_break(value, 0) && !put_break(emitter) { // end the line of the header
+		return false
+	}
 
 	breaks := true
 	leading_spaces := true
 	for i := 0; i < len(value); {
 		if is_break(value, i) {
 			if !breaks && !leading_spaces && value[i] == '\n' {
-				k := 0
+				k := i
 				for is_break(value, k) {
 					k += width(value[k])
 				}
-- 
2.43.0


From 2fbb73fe8d10d1f6d119595425d7b722e0e21114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:54 +0000
Subject: [PATCH 27/54] fix: a quoted << is a key, and strings that YAML 1.1
 knows as something else are quoted

---
 engine/parse.go           | 2 +-
 internal/yaml/emitterc.go | 2 +-
 internal/yaml/encode.go   | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/parse.go b/engine/parse.go
index a925eae..0b37905 100644
--- a/engine/parse.go
+++ b/engine/parse.go
@@ -71,7 +71,7 @@ func Parse(filename string, node *yaml.Node) (*core.YispNode, error) {
 			}
 
 			key := keyNode.Value
-			if key == "<<" {
+			if key == "<<" && keyNode.Tag == "!!merge" {
 				key = core.YISP_SPECIAL_MERGE_KEY + xid.New().String()
 			}
 
diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index f7eb013..0b9a8d5 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -1328,7 +1328,7 @@ func yaml_emitter_analyze_scalar(emitter *yaml_emitter_t, value []byte) bool {
 
 		if value[i] == '\t' {
 			tab_characters = true
-		} else if !is_printable(value, i) || !is_ascii(value, i) && !emitter.unicode {
+		} else if !is_printable(value, i) || !is_ascii(value, i) && !emitter.unicode || is_break(value, i) && value[i] != '\n' {
 			special_characters = true
 		}
 		if is_space(value, i) {
diff --git a/internal/yaml/encode.go b/internal/yaml/encode.go
index de9e72a..053eff3 100644
--- a/internal/yaml/encode.go
+++ b/internal/yaml/encode.go
@@ -449,6 +449,8 @@ func (e *encoder) node(node *Node, tail string) {
 				rtag, _ := resolve("", node.Value)
 				if rtag == stag {
 					tag = ""
+					// YAML 1.1 readers and merge keys take these strings for something else.
+					forceQuoting = stag == strTag && (isOldBool(node.Value) || isBase60Float(node.Value) || node.Value == "<<")
 				} else if stag == strTag {
 					tag = ""
 					forceQuoting = true
-- 
2.43.0


From 1995862f4fc34ed084e9b748fde85dbc58f5e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:38 +0000
Subject: [PATCH 28/54] fix: strings that begin with a tab or end with line
 breaks are readable in block styles

---
 internal/yaml/emitterc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index 0b9a8d5..28d5ff3 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -1845,7 +1845,7 @@ func yaml_emitter_write_double_quoted_scalar(emitter *yaml_emitter_t, value []by
 }
 
 func yaml_emitter_write_block_scalar_hints(emitter *yaml_emitter_t, value []byte) bool {
-	if is_space(value, 0) || is_break(value, 0) {
+	if is_blank(value, 0) || is_break(value, 0) {
 		indent_hint := []byte{'0' + byte(emitter.best_indent)}
 		if !yaml_emitter_write_indicator(emitter, indent_hint, false, false, false) {
 			return false
@@ -1949,10 +1949,10 @@ func yaml_emitter_write_folded_scalar(emitter *yaml_emitter_t, value []byte) boo
 		if is_break(value, i) {
 			if !breaks && !leading_spaces && value[i] == '\n' {
 				k := i
-				for is_break(value, k) {
+				for k < len(value) && is_break(value, k) {
 					k += width(value[k])
 				}
-				if !is_blankz(value, k) {
+				if k < len(value) && !is_blankz(value, k) {
 					if !put_break(emitter) {
 						return false
 					}
-- 
2.43.0


From 07ce647741d9c50eef628012fa70d02e15eaf84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:00 +0000
Subject: [PATCH 29/54] fix: block scalars in lists state their own
 indentation, and line comments do not move into the next value

---
 engine/render.go          | 32 +++++++++++++++++++++++++-------
 internal/yaml/emitterc.go |  7 ++++++-
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 23c9849..d92880b 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -97,19 +97,23 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			}
 			results = append(results, content)
 		}
-		return &yaml.Node{
+		rendered := &yaml.Node{
 			Kind:        yaml.SequenceNode,
 			Content:     results,
 			HeadComment: node.Attr.HeadComment,
-			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
 			Style:       node.Attr.Style,
-		}, nil
+		}
+		if !isBlock(rendered) {
+			rendered.LineComment = e.getLineComment(node)
+		}
+		return rendered, nil
 	case core.KindMap:
 		m, ok := node.Value.(*core.YispMap)
 		if !ok {
 			return nil, fmt.Errorf("invalid map value")
 		}
+		isFlow := node.Attr.Style&yaml.FlowStyle != 0
 		results := make([]*yaml.Node, 0)
 		for key, item := range m.AllFromFront() {
 			node, ok := item.(*core.YispNode)
@@ -125,12 +129,18 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 				continue
 			}
 
+			// The line of the key is where a block below it has its comment. Every other value has it behind itself.
+			lineComment := ""
+			if isBlock(content) && !isFlow {
+				lineComment = e.getLineComment(node)
+			}
+
 			results = append(results, &yaml.Node{
 				Kind:        yaml.ScalarNode,
 				Value:       key,
 				Tag:         "!!str",
 				HeadComment: node.Attr.KeyHeadComment,
-				LineComment: e.getLineComment(node),
+				LineComment: lineComment,
 				FootComment: node.Attr.KeyFootComment,
 				Style:       node.Attr.KeyStyle,
 			})
@@ -139,14 +149,17 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 
 		}
 
-		return &yaml.Node{
+		rendered := &yaml.Node{
 			Kind:        yaml.MappingNode,
 			Content:     results,
 			HeadComment: node.Attr.HeadComment,
-			LineComment: e.getLineComment(node),
 			FootComment: node.Attr.FootComment,
 			Style:       node.Attr.Style,
-		}, nil
+		}
+		if !isBlock(rendered) {
+			rendered.LineComment = e.getLineComment(node)
+		}
+		return rendered, nil
 
 	case core.KindLambda:
 		if e.renderSpecialObjects {
@@ -216,6 +229,11 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	return nil, nil
 }
 
+// isBlock reports whether the node spans the lines below the one it starts on, which leaves no place for a comment behind it
+func isBlock(node *yaml.Node) bool {
+	return len(node.Content) > 0 && node.Style&yaml.FlowStyle == 0
+}
+
 // formatFloat writes a float so that it reads back as the same float
 func formatFloat(value any) string {
 	f, ok := value.(float64)
diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index 28d5ff3..dbaac46 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -1846,7 +1846,12 @@ func yaml_emitter_write_double_quoted_scalar(emitter *yaml_emitter_t, value []by
 
 func yaml_emitter_write_block_scalar_hints(emitter *yaml_emitter_t, value []byte) bool {
 	if is_blank(value, 0) || is_break(value, 0) {
-		indent_hint := []byte{'0' + byte(emitter.best_indent)}
+		// The hint is relative to the indentation of the parent, which is not always best_indent.
+		indent := emitter.indent
+		if parent := emitter.indents[len(emitter.indents)-1]; parent > 0 {
+			indent -= parent
+		}
+		indent_hint := []byte{'0' + byte(indent)}
 		if !yaml_emitter_write_indicator(emitter, indent_hint, false, false, false) {
 			return false
 		}
-- 
2.43.0


From a8298c5bafa8f26d300a1ccc817e0b6576ee2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 30/54] fix: of several variables that cannot be converted the
 first one by name is reported

---
 engine/engine.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index af6146f..3c116bd 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -5,6 +5,8 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"maps"
+	"slices"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -126,8 +128,8 @@ func (e *engine) EvaluateFileToAny(path string) (any, error) {
 func (e *engine) EvaluateBytesToYaml(data []byte, global map[string]any) (string, error) {
 	env := core.NewEnv()
 
-	for key, value := range global {
-		node, err := core.ParseAny("", value)
+	for _, key := range slices.Sorted(maps.Keys(global)) {
+		node, err := core.ParseAny("", global[key])
 		if err != nil {
 			return "", fmt.Errorf("failed to parse global variable %s: %v", key, err)
 		}
-- 
2.43.0


From 8f292f3c666bc6418519aef8e8b50589e4b8a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 31/54] fix: a file whose documents are all null prints nothing
 instead of failing

---
 engine/render.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/render.go b/engine/render.go
index d92880b..6e19cc5 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -266,6 +266,7 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 		buf := bytes.Buffer{}
 		enc := yaml.NewEncoder(&buf)
 		enc.SetIndent(2)
+		started := false
 		for _, item := range arr {
 			node, ok := item.(*core.YispNode)
 			if !ok {
@@ -280,11 +281,15 @@ func (e *engine) Render(node *core.YispNode) (string, error) {
 				continue
 			}
 
+			started = true
 			err = enc.Encode(rendered)
 			if err != nil {
 				return "", err
 			}
 		}
+		if !started { // an encoder that has encoded nothing cannot be closed
+			return "", nil
+		}
 		err := enc.Close()
 		if err != nil {
 			return "", err
-- 
2.43.0


From 67c57b595e17ad42de91ef2d61f37031e26cee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 32/54] fix: a comment behind the header of a block scalar does
 not add a line break to the text

---
 internal/yaml/emitterc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/yaml/emitterc.go b/internal/yaml/emitterc.go
index dbaac46..b03c267 100644
--- a/internal/yaml/emitterc.go
+++ b/internal/yaml/emitterc.go
@@ -1903,7 +1903,7 @@ func yaml_emitter_write_literal_scalar(emitter *yaml_emitter_t, value []byte) bo
 	}
 	//emitter.indention = true
 	emitter.whitespace = true
-	if is_break(value, 0) && !put_break(emitter) { // end the line of the header
+	if is_break(value, 0) && emitter.column > 0 && !put_break(emitter) { // end the line of the header
 		return false
 	}
 	breaks := true
@@ -1944,7 +1944,7 @@ func yaml_emitter_write_folded_scalar(emitter *yaml_emitter_t, value []byte) boo
 
 	//emitter.indention = true
 	emitter.whitespace = true
-	if is_break(value, 0) && !put_break(emitter) { // end the line of the header
+	if is_break(value, 0) && emitter.column > 0 && !put_break(emitter) { // end the line of the header
 		return false
 	}
 
-- 
2.43.0


From 67f002abe4e3a7ffe7257e9413d8dbe52afeaf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 33/54] fix: file paths are not read as URLs, so names with
 spaces, %, # and ? work and keep their directory

---
 core/util.go | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/core/util.go b/core/util.go
index 07a0c39..7fb7f74 100644
--- a/core/util.go
+++ b/core/util.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
+	"strings"
 )
 
 // JsonPrint prints an object as formatted JSON with a tag
@@ -314,41 +315,49 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 			return nil, fmt.Errorf("failed to get current working directory: %v", err)
 		}
 	} else {
-		targetURL, err := url.Parse(path)
-		if err != nil {
-			return nil, fmt.Errorf("failed to parse URL: %v", err)
-		}
-
-		if base != "" {
-			baseURL, err := url.Parse(base)
+		file := strings.TrimPrefix(path, "file://")
+		if isRemote(path) || isRemote(base) {
+			targetURL, err := url.Parse(path)
 			if err != nil {
-				return nil, fmt.Errorf("failed to parse base URL: %v", err)
+				return nil, fmt.Errorf("failed to parse URL: %v", err)
+			}
+
+			if isRemote(base) {
+				baseURL, err := url.Parse(base)
+				if err != nil {
+					return nil, fmt.Errorf("failed to parse base URL: %v", err)
+				}
+				targetURL = baseURL.ResolveReference(targetURL)
 			}
-			targetURL = baseURL.ResolveReference(targetURL)
-		}
 
-		if targetURL.Scheme == "http" || targetURL.Scheme == "https" {
 			reader, err = fetchRemote(targetURL.String())
 			if err != nil {
 				return nil, fmt.Errorf("failed to fetch remote file: %v", err)
 			}
+
+			file = targetURL.Path
+			source = targetURL.String()
 		} else {
+			if base != "" && !filepath.IsAbs(file) {
+				file = filepath.Join(filepath.Dir(base), file)
+			}
 
-			stat, err := os.Stat(targetURL.Path)
+			stat, err := os.Stat(file)
 			if err != nil {
 				return nil, fmt.Errorf("failed to stat file: %v", err)
 			}
 
 			if stat.IsDir() {
-				targetURL = &url.URL{Path: filepath.Join(targetURL.Path, "index.yisp")}
+				file = filepath.Join(file, "index.yisp")
 			}
-			reader, err = os.Open(targetURL.Path)
+			reader, err = os.Open(file)
 			if err != nil {
 				return nil, fmt.Errorf("failed to open file: %v", err)
 			}
+
+			source = file
 		}
-		extension = filepath.Ext(targetURL.Path)
-		source = targetURL.String()
+		extension = filepath.Ext(file)
 	}
 
 	switch extension {
@@ -372,6 +381,11 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 
 }
 
+// isRemote determines if a path is the URL of a remote file
+func isRemote(path string) bool {
+	return strings.HasPrefix(path, "http://") || strings.HasPrefix(path, "https://")
+}
+
 func fetchRemote(rawURL string) (io.ReadCloser, error) {
 	resp, err := http.Get(rawURL)
 	if err != nil {
-- 
2.43.0


From 56223f4637d43fc2559b1c485966afd58d685911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 34/54] fix: relative paths in a program read from standard
 input resolve against the working directory

---
 core/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/util.go b/core/util.go
index 7fb7f74..52d585d 100644
--- a/core/util.go
+++ b/core/util.go
@@ -308,12 +308,12 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 	source := ""
 
 	if path == "-" {
-		var err error
 		reader = os.Stdin
-		source, err = os.Getwd()
+		wd, err := os.Getwd()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get current working directory: %v", err)
 		}
+		source = filepath.Join(wd, "-")
 	} else {
 		file := strings.TrimPrefix(path, "file://")
 		if isRemote(path) || isRemote(base) {
-- 
2.43.0


From 5dda0fa2be5e1b0234cacba75108017be59b744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 35/54] fix: a computed relative path resolves against the file
 of the call, not the working directory

---
 engine/apply.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/apply.go b/engine/apply.go
index b4fa79b..0144423 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -48,6 +48,16 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			return nil, core.NewEvaluationError(car, fmt.Sprintf("invalid car value: %T", car.Value))
 		}
 
+		// A computed argument has no position of its own. It takes the position of the call,
+		// so that the relative path it may be resolves against the file of the call.
+		for i, node := range cdr {
+			if node.Attr.File() == "" {
+				positioned := *node
+				positioned.Attr.Sources = car.Attr.Sources
+				cdr[i] = &positioned
+			}
+		}
+
 		split := strings.Split(op, ".")
 		if len(split) > 1 { // lib operator
 			fn, ok := lib.GetOperator(split[0], split[1])
-- 
2.43.0


From e65666882c37a6e7b631daf3d57c7732173f25cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 36/54] fix: glob patterns may lead out of the directory of
 their file, and a file does not include itself through its directory

---
 core/util.go    | 24 ++++++++++++++++++++++++
 engine/apply.go | 18 ++++++++----------
 lib/files.go    | 18 ++++++------------
 3 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/core/util.go b/core/util.go
index 52d585d..882f510 100644
--- a/core/util.go
+++ b/core/util.go
@@ -11,6 +11,8 @@ import (
 	"path/filepath"
 	"slices"
 	"strings"
+
+	"github.com/bmatcuk/doublestar/v4"
 )
 
 // JsonPrint prints an object as formatted JSON with a tag
@@ -381,6 +383,28 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 
 }
 
+// Glob lists the files that match a pattern written in the given file.
+// The paths are relative to the directory of that file, as the pattern is.
+func Glob(pattern, file string, opts ...doublestar.GlobOption) ([]string, error) {
+	// fs.FS has no paths outside its root, so the root is the deepest directory the pattern names
+	dir, rest := doublestar.SplitPattern(pattern)
+	root := dir
+	if !filepath.IsAbs(root) {
+		root = filepath.Join(filepath.Dir(file), root)
+	}
+
+	paths, err := doublestar.Glob(os.DirFS(root), rest, opts...)
+	if err != nil {
+		return nil, err
+	}
+
+	for i, path := range paths {
+		paths[i] = filepath.Join(dir, path)
+	}
+
+	return paths, nil
+}
+
 // isRemote determines if a path is the URL of a remote file
 func isRemote(path string) bool {
 	return strings.HasPrefix(path, "http://") || strings.HasPrefix(path, "https://")
diff --git a/engine/apply.go b/engine/apply.go
index 0144423..9b57ba8 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -8,8 +8,6 @@ import (
 	"path/filepath"
 	"strings"
 
-	"github.com/bmatcuk/doublestar/v4"
-
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/lib"
 )
@@ -353,13 +351,7 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid path type: %T", node.Value))
 		}
 
-		if after, ok := strings.CutPrefix(entry, "./"); ok {
-			entry = after
-		}
-
-		dirFs := os.DirFS(filepath.Dir(node.Attr.File()))
-
-		paths, err := doublestar.Glob(dirFs, entry)
+		paths, err := core.Glob(entry, node.Attr.File())
 		if err != nil {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
 		}
@@ -372,7 +364,13 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 
 			// continue if the file is the same as the including file
 			includingFile := filepath.Clean(node.Attr.File())
-			includedFile := filepath.Clean(filepath.Join(filepath.Dir(node.Attr.File()), path))
+			includedFile := filepath.Clean(path)
+			if !filepath.IsAbs(path) {
+				includedFile = filepath.Join(filepath.Dir(node.Attr.File()), path)
+			}
+			if stat, err := os.Stat(includedFile); err == nil && stat.IsDir() {
+				includedFile = filepath.Join(includedFile, "index.yisp")
+			}
 			if includingFile == includedFile {
 				continue
 			}
diff --git a/lib/files.go b/lib/files.go
index 8561263..d4d3cee 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -4,9 +4,6 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
-	"strings"
-
-	"github.com/bmatcuk/doublestar/v4"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -26,13 +23,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid argument type for open: %T", node))
 		}
 
-		if after, ok := strings.CutPrefix(entry, "./"); ok {
-			entry = after
-		}
-
-		dirFs := os.DirFS(filepath.Dir(node.Attr.File()))
-
-		paths, err := doublestar.Glob(dirFs, entry)
+		paths, err := core.Glob(entry, node.Attr.File())
 		if err != nil {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
 		}
@@ -40,13 +31,16 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 		for _, path := range paths {
 
 			includingFile := filepath.Clean(node.Attr.File())
-			includedFile := filepath.Clean(filepath.Join(filepath.Dir(node.Attr.File()), path))
+			includedFile := filepath.Clean(path)
+			if !filepath.IsAbs(path) {
+				includedFile = filepath.Join(filepath.Dir(node.Attr.File()), path)
+			}
 			if includingFile == includedFile {
 				continue
 			}
 
 			filename := filepath.Base(path)
-			body, err := os.ReadFile(filepath.Join(filepath.Dir(node.Attr.File()), path))
+			body, err := os.ReadFile(includedFile)
 			if err != nil {
 				return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to read file: %s", path))
 			}
-- 
2.43.0


From ef93424270fced3d58f5d2f703a60471c66d6e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:12 +0000
Subject: [PATCH 37/54] fix: files.glob reads the files a pattern matches and
 skips the directories

---
 lib/files.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/files.go b/lib/files.go
index d4d3cee..76ddf9f 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -5,6 +5,8 @@ import (
 	"os"
 	"path/filepath"
 
+	"github.com/bmatcuk/doublestar/v4"
+
 	"github.com/totegamma/yisp/core"
 )
 
@@ -23,7 +25,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid argument type for open: %T", node))
 		}
 
-		paths, err := core.Glob(entry, node.Attr.File())
+		paths, err := core.Glob(entry, node.Attr.File(), doublestar.WithFilesOnly())
 		if err != nil {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("failed to glob path: %s", entry))
 		}
-- 
2.43.0


From 699d86839110562a48de935d97fc968788ed3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 38/54] fix: a computed argument takes the position of its
 expression, in errors and for relative paths

---
 engine/apply.go | 19 ++++++++++++-------
 engine/eval.go  |  2 +-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/engine/apply.go b/engine/apply.go
index 9b57ba8..26e4136 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -46,14 +46,8 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			return nil, core.NewEvaluationError(car, fmt.Sprintf("invalid car value: %T", car.Value))
 		}
 
-		// A computed argument has no position of its own. It takes the position of the call,
-		// so that the relative path it may be resolves against the file of the call.
 		for i, node := range cdr {
-			if node.Attr.File() == "" {
-				positioned := *node
-				positioned.Attr.Sources = car.Attr.Sources
-				cdr[i] = &positioned
-			}
+			cdr[i] = positioned(node, car)
 		}
 
 		split := strings.Split(op, ".")
@@ -81,6 +75,17 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 	}
 }
 
+// positioned gives a computed value, which has no position of its own, the position of the expression it stands for,
+// so that errors name it and the relative path it may be resolves against the file of the expression.
+func positioned(value, expression *core.YispNode) *core.YispNode {
+	if value.Attr.File() != "" {
+		return value
+	}
+	node := *value
+	node.Attr.Sources = expression.Attr.Sources
+	return &node
+}
+
 // operators is a map of operator names to their implementations
 var operators = make(map[string]core.YispOperator)
 
diff --git a/engine/eval.go b/engine/eval.go
index 7e435f5..d9f6f06 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -316,7 +316,7 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 					if err != nil {
 						return nil, core.NewEvaluationErrorWithParent(item, fmt.Sprintf("failed to evaluate item %d", i), err)
 					}
-					evaluated[i] = e
+					evaluated[i] = positioned(e, item)
 				}
 
 				var err error
-- 
2.43.0


From 8a6bbeb0bc233e61a6aee4caf70f652bcc752455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:32 +0000
Subject: [PATCH 39/54] fix: a manifest whose apiVersion, kind or $schema comes
 from a merge key is typed by the values it ends up with

---
 engine/eval.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index d9f6f06..324b927 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -359,9 +359,6 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid map type: %T", node.Value))
 		}
 		results := core.NewYispMap()
-		var schemaID string
-		var apiVersion string
-		var kind string
 		for key, item := range m.AllFromFront() {
 			node, ok := item.(*core.YispNode)
 			if !ok {
@@ -373,15 +370,6 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				return nil, core.NewEvaluationErrorWithParent(node, "failed to evaluate item", err)
 			}
 
-			switch key {
-			case "$schema":
-				schemaID, _ = val.Value.(string)
-			case "apiVersion":
-				apiVersion, _ = val.Value.(string)
-			case "kind":
-				kind, _ = val.Value.(string)
-			}
-
 			if strings.HasPrefix(key, core.YISP_SPECIAL_MERGE_KEY) {
 				if val.Kind == core.KindMap {
 					innerMap, ok := val.Value.(*core.YispMap)
@@ -432,6 +420,11 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			Attr:  node.Attr,
 		}
 
+		// the values may come from merge keys
+		schemaID := stringField(results, "$schema")
+		apiVersion := stringField(results, "apiVersion")
+		kind := stringField(results, "kind")
+
 		if schemaID != "" {
 			schema, err := core.LoadSchemaFromURL(schemaID)
 			if err != nil && !e.allowUntypedManifest {
@@ -502,3 +495,14 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 
 	return result, nil
 }
+
+// stringField returns the string a map has under a key, or "" if it has none
+func stringField(m *core.YispMap, key string) string {
+	item, _ := m.Get(key)
+	node, ok := item.(*core.YispNode)
+	if !ok {
+		return ""
+	}
+	value, _ := node.Value.(string)
+	return value
+}
-- 
2.43.0


From 01fdf434a60ff4c9c7cabe87d7743087b3924018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 40/54] fix: items of a resource list mean to a KRM function
 what they mean in a program

---
 cmd/krm.go    | 10 +++++++++-
 core/parse.go |  8 ++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/cmd/krm.go b/cmd/krm.go
index d7b56d5..065cdbc 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -47,8 +47,16 @@ var krmCmd = &cobra.Command{
 			panic(err)
 		}
 
+		var root yaml.Node
+		err = yaml.Unmarshal(inputStr, &root)
+		if err != nil {
+			panic(err)
+		}
+
+		core.NormalizeYaml(&root)
+
 		var krmInput KRMInput
-		err = yaml.Unmarshal(inputStr, &krmInput)
+		err = root.Decode(&krmInput)
 		if err != nil {
 			panic(err)
 		}
diff --git a/core/parse.go b/core/parse.go
index 74625f2..13f22ed 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -221,7 +221,7 @@ func ParseYamlDocuments(filename string, reader io.Reader) ([]any, error) {
 			return nil, fmt.Errorf("failed to decode YAML: %v", err)
 		}
 
-		normalizeYaml(&root)
+		NormalizeYaml(&root)
 		var data any
 		if err := root.Decode(&data); err != nil {
 			return nil, fmt.Errorf("failed to decode YAML: %v", err)
@@ -235,9 +235,9 @@ func ParseYamlDocuments(filename string, reader io.Reader) ([]any, error) {
 	}
 }
 
-// normalizeYaml makes scalars and keys mean what they mean in yisp programs:
+// NormalizeYaml makes scalars and keys mean what they mean in yisp programs:
 // dates and keys are strings, and integers with leading zeros are decimal
-func normalizeYaml(node *yaml.Node) {
+func NormalizeYaml(node *yaml.Node) {
 	switch {
 	case node.Kind == yaml.ScalarNode && node.Tag == "!!timestamp":
 		node.Tag = "!!str"
@@ -251,6 +251,6 @@ func normalizeYaml(node *yaml.Node) {
 		if isKey && child.Tag != "!!merge" {
 			child.Tag = "!!str"
 		}
-		normalizeYaml(child)
+		NormalizeYaml(child)
 	}
 }
-- 
2.43.0


From ad6fa6e8ff5cd3e99fda0462f17e5cf6cee37e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 41/54] fix: a build that fails reports the error on standard
 error and exits with status 1

---
 cmd/build.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/cmd/build.go b/cmd/build.go
index ba80db5..493c6f5 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -56,8 +57,7 @@ var buildCmd = &cobra.Command{
 		if yamlFile != "-" && !strings.HasPrefix(yamlFile, "http://") && !strings.HasPrefix(yamlFile, "https://") {
 			yamlFile, err = filepath.Abs(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail(err)
 			}
 		}
 
@@ -65,48 +65,47 @@ var buildCmd = &cobra.Command{
 		case "yaml":
 			result, err := e.EvaluateFileToYaml(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail(err)
 			}
 
 			fmt.Println(result)
 		case "json":
 			resultAny, err := e.EvaluateFileToAny(yamlFile)
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail(err)
 			}
 
 			resultArr, ok := resultAny.([]any)
 			if !ok {
-				fmt.Println("Error: Result is not an array")
-				return
+				fail("Result is not an array")
 			}
 
 			if len(resultArr) == 0 {
-				fmt.Println("Error: Result is empty")
-				return
+				fail("Result is empty")
 			}
 
 			if len(resultArr) > 1 {
-				fmt.Printf("Error: Json output only supports a single document, but got %v objects\n", len(resultArr))
-				return
+				fail(fmt.Sprintf("Json output only supports a single document, but got %v objects", len(resultArr)))
 			}
 
 			jsonResult, err := json.MarshalIndent(resultArr[0], "", "  ")
 			if err != nil {
-				fmt.Println("Error:", err)
-				return
+				fail(err)
 			}
 
 			fmt.Println(string(jsonResult))
 		default:
-			fmt.Println("Error: Unsupported output format. Use 'yaml' or 'json'.")
-			return
+			fail("Unsupported output format. Use 'yaml' or 'json'.")
 		}
 	},
 }
 
+// fail reports why there is no output and exits
+func fail(reason any) {
+	fmt.Fprintln(os.Stderr, "Error:", reason)
+	os.Exit(1)
+}
+
 func init() {
 	rootCmd.AddCommand(buildCmd)
 	buildCmd.Flags().BoolP("allow-cmd", "", false, "Allow command execution")
-- 
2.43.0


From bc3ee74826a2fb408b47f1a0949ae2109d83e54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 42/54] fix: JSON output leaves out the special objects that
 YAML output leaves out

---
 engine/engine.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index 3c116bd..e7a5800 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -117,6 +117,10 @@ func (e *engine) EvaluateFileToAny(path string) (any, error) {
 		}
 	}
 
+	if !e.renderSpecialObjects {
+		evaluated = withoutSpecialObjects(evaluated)
+	}
+
 	result, err := evaluated.ToNative()
 	if err != nil {
 		return "", err
@@ -125,6 +129,47 @@ func (e *engine) EvaluateFileToAny(path string) (any, error) {
 	return result, nil
 }
 
+// withoutSpecialObjects leaves out of lists and maps what Render leaves out
+func withoutSpecialObjects(node *core.YispNode) *core.YispNode {
+	result := *node
+	switch value := node.Value.(type) {
+	case []any:
+		items := make([]any, 0, len(value))
+		for _, item := range value {
+			if child, ok := item.(*core.YispNode); ok {
+				if isSpecialObject(child) {
+					continue
+				}
+				item = withoutSpecialObjects(child)
+			}
+			items = append(items, item)
+		}
+		result.Value = items
+	case *core.YispMap:
+		entries := core.NewYispMap()
+		for key, item := range value.AllFromFront() {
+			if child, ok := item.(*core.YispNode); ok {
+				if isSpecialObject(child) {
+					continue
+				}
+				item = withoutSpecialObjects(child)
+			}
+			entries.Set(key, item)
+		}
+		result.Value = entries
+	}
+	return &result
+}
+
+func isSpecialObject(node *core.YispNode) bool {
+	switch node.Kind {
+	case core.KindNull, core.KindBool, core.KindInt, core.KindFloat, core.KindString, core.KindArray, core.KindMap:
+		return false
+	default:
+		return true
+	}
+}
+
 func (e *engine) EvaluateBytesToYaml(data []byte, global map[string]any) (string, error) {
 	env := core.NewEnv()
 
-- 
2.43.0


From 53eea2b15cae4e193dd1bc1d1d607af4ce00da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 43/54] fix: the directory given with --cache-dir is also the
 one manifests find their types in

---
 cmd/root.go    |  3 +++
 core/schema.go | 26 ++++++++++++++++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 6c8d24f..b55caa7 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/spf13/cobra"
 	"github.com/spf13/viper"
+	"github.com/totegamma/yisp/core"
 )
 
 var rootCmd = &cobra.Command{
@@ -28,6 +29,8 @@ func init() {
 
 func initConfig() {
 
+	core.CacheDir, _ = rootCmd.PersistentFlags().GetString("cache-dir")
+
 	configPath, _ := rootCmd.PersistentFlags().GetString("config")
 
 	if configPath == "" {
diff --git a/core/schema.go b/core/schema.go
index 88be1b3..ac2bba2 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -170,14 +170,28 @@ func (s *Schema) checkNull() error {
 	return nil
 }
 
+// CacheDir is the directory schemas are cached in, .cache/yisp in the home directory if it is empty
+var CacheDir string
+
+func getCacheDir() (string, error) {
+	if CacheDir != "" {
+		return CacheDir, nil
+	}
+	home, err := os.UserHomeDir()
+	if err != nil {
+		return "", err
+	}
+	return filepath.Join(home, ".cache", "yisp"), nil
+}
+
 func LoadSchemaFromURL(url string) (*Schema, error) {
 
 	cachekey := base64.StdEncoding.EncodeToString([]byte(url))
-	home, err := os.UserHomeDir()
+	cacheDir, err := getCacheDir()
 	if err != nil {
 		return nil, err
 	}
-	schemasPath := filepath.Join(home, ".cache", "yisp", "schemas", cachekey+".json")
+	schemasPath := filepath.Join(cacheDir, "schemas", cachekey+".json")
 	file, err := os.Open(schemasPath)
 	if err == nil {
 		defer file.Close()
@@ -231,11 +245,11 @@ func LoadSchemaFromID(id string) (*Schema, error) {
 		id = split[len(split)-1]
 	}
 
-	home, err := os.UserHomeDir()
+	cacheDir, err := getCacheDir()
 	if err != nil {
 		return nil, err
 	}
-	schemasPath := filepath.Join(home, ".cache", "yisp", "schemas", id+".json")
+	schemasPath := filepath.Join(cacheDir, "schemas", id+".json")
 	file, err := os.Open(schemasPath)
 	if err != nil {
 		return nil, err
@@ -247,12 +261,12 @@ func LoadSchemaFromID(id string) (*Schema, error) {
 
 func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
 
-	home, err := os.UserHomeDir()
+	cacheDir, err := getCacheDir()
 	if err != nil {
 		return nil, err
 	}
 
-	gvkPath := filepath.Join(home, ".cache", "yisp", "gvk", fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
+	gvkPath := filepath.Join(cacheDir, "gvk", fmt.Sprintf("%s_%s_%s.txt", group, version, kind))
 	file, err := os.Open(gvkPath)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c292c049a37a57279ed3428f0f6ca24974cd3e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:19 +0000
Subject: [PATCH 44/54] fix: a program on standard input cannot confirm the
 commands it runs

---
 core/util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/util.go b/core/util.go
index 882f510..45ac3b9 100644
--- a/core/util.go
+++ b/core/util.go
@@ -310,7 +310,12 @@ func CallEngineByPath(path, base string, env *Env, e Engine) (*YispNode, error)
 	source := ""
 
 	if path == "-" {
-		reader = os.Stdin
+		// read it to the end, so that no part of the program can answer a question to the operator
+		program, err := io.ReadAll(os.Stdin)
+		if err != nil {
+			return nil, fmt.Errorf("failed to read standard input: %v", err)
+		}
+		reader = strings.NewReader(string(program))
 		wd, err := os.Getwd()
 		if err != nil {
 			return nil, fmt.Errorf("failed to get current working directory: %v", err)
-- 
2.43.0


From a09b010c381f2e03d42a3576c7943db03180fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 45/54] fix: merging follows the list strategies of a type that
 is a reference to another one

---
 core/schema.go | 17 +++++++++++++++++
 core/util.go   |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/core/schema.go b/core/schema.go
index ac2bba2..95251e6 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -50,6 +50,23 @@ type Schema struct {
 	K8sPatchMergeKey string `json:"x-kubernetes-patch-merge-key,omitempty"`
 }
 
+// resolve returns the schema that s refers to, s itself if it is not a reference
+func (s *Schema) resolve() *Schema {
+	for refs := []string{}; s != nil && s.Ref != ""; {
+		if slices.Contains(refs, s.Ref) {
+			return nil
+		}
+		refs = append(refs, s.Ref)
+		refSchema, err := LoadSchemaFromID(s.Ref)
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "Error loading schema from ref %s: %v\n", s.Ref, err)
+			return nil
+		}
+		s = refSchema
+	}
+	return s
+}
+
 func (s *Schema) GetProperties() map[string]*Schema {
 	if s.Properties == nil {
 		return make(map[string]*Schema)
diff --git a/core/util.go b/core/util.go
index 45ac3b9..d266547 100644
--- a/core/util.go
+++ b/core/util.go
@@ -67,6 +67,8 @@ func VerifyTypes(node *YispNode, allowUntypedManifest bool) error {
 
 func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 
+	schema = schema.resolve()
+
 	strategy := "replace"
 	mergeKey := ""
 	if schema != nil {
-- 
2.43.0


From d182ecc1d5f09a87a08d308203864e0629ac9d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 46/54] fix: strings like .1_0, floats in YAML 1.1, are printed
 plain

---
 internal/yaml/encode.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/yaml/encode.go b/internal/yaml/encode.go
index 053eff3..29f1826 100644
--- a/internal/yaml/encode.go
+++ b/internal/yaml/encode.go
@@ -306,6 +306,15 @@ func isBase60Float(s string) (result bool) {
 // is bogus. In practice parsers do not enforce the "\.[0-9_]*" suffix.
 var base60float = regexp.MustCompile(`^[-+]?[0-9][0-9_]*(?::[0-5]?[0-9])+(?:\.[0-9_]*)?$`)
 
+// isOldFloat returns whether s is a float in YAML 1.1 only: one that begins
+// with a point and has underscores in it.
+func isOldFloat(s string) bool {
+	if s == "" || s[0] != '.' || strings.IndexByte(s, '_') < 0 {
+		return false
+	}
+	return yamlStyleFloat.MatchString(strings.ReplaceAll(s, "_", ""))
+}
+
 // isOldBool returns whether s is bool notation as defined in YAML 1.1.
 //
 // We continue to force strings that YAML 1.1 would interpret as booleans to be
@@ -342,7 +351,7 @@ func (e *encoder) stringv(tag string, in reflect.Value) {
 		// tag when encoded unquoted. If it doesn't,
 		// there's no need to quote it.
 		rtag, _ := resolve("", s)
-		canUsePlain = rtag == strTag && !(isBase60Float(s) || isOldBool(s))
+		canUsePlain = rtag == strTag && !(isBase60Float(s) || isOldFloat(s) || isOldBool(s))
 	}
 	// Note: it's possible for user code to emit invalid YAML
 	// if they explicitly specify a tag and a string containing
@@ -450,7 +459,7 @@ func (e *encoder) node(node *Node, tail string) {
 				if rtag == stag {
 					tag = ""
 					// YAML 1.1 readers and merge keys take these strings for something else.
-					forceQuoting = stag == strTag && (isOldBool(node.Value) || isBase60Float(node.Value) || node.Value == "<<")
+					forceQuoting = stag == strTag && (isOldBool(node.Value) || isBase60Float(node.Value) || isOldFloat(node.Value) || node.Value == "<<")
 				} else if stag == strTag {
 					tag = ""
 					forceQuoting = true
-- 
2.43.0


From fd2541d9f6a8f415e38ad2ce6f7bea177219c835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 47/54] fix: source maps of block collections inside flow
 collections made the output unreadable

---
 engine/render.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 6e19cc5..c104906 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -21,6 +21,17 @@ func (e *engine) getLineComment(node *core.YispNode) string {
 
 // Render converts a YispNode to a yaml.Node
 func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
+	return e.renderYamlNodesIn(node, false)
+}
+
+// renderYamlNodesIn converts a YispNode that may be inside a collection in flow style, where everything is in flow style
+func (e *engine) renderYamlNodesIn(node *core.YispNode, inFlow bool) (*yaml.Node, error) {
+	style := node.Attr.Style
+	if inFlow && (node.Kind == core.KindArray || node.Kind == core.KindMap) {
+		style |= yaml.FlowStyle
+	}
+	isFlow := style&yaml.FlowStyle != 0
+
 	switch node.Kind {
 	case core.KindNull:
 		return &yaml.Node{
@@ -88,7 +99,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			if !ok {
 				return nil, fmt.Errorf("invalid item type: %T", item)
 			}
-			content, err := e.renderYamlNodes(node)
+			content, err := e.renderYamlNodesIn(node, isFlow)
 			if err != nil {
 				return nil, err
 			}
@@ -102,7 +113,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			Content:     results,
 			HeadComment: node.Attr.HeadComment,
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       style,
 		}
 		if !isBlock(rendered) {
 			rendered.LineComment = e.getLineComment(node)
@@ -113,7 +124,6 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 		if !ok {
 			return nil, fmt.Errorf("invalid map value")
 		}
-		isFlow := node.Attr.Style&yaml.FlowStyle != 0
 		results := make([]*yaml.Node, 0)
 		for key, item := range m.AllFromFront() {
 			node, ok := item.(*core.YispNode)
@@ -121,7 +131,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 				return nil, fmt.Errorf("invalid item type: %T", item)
 			}
 
-			content, err := e.renderYamlNodes(node)
+			content, err := e.renderYamlNodesIn(node, isFlow)
 			if err != nil {
 				return nil, err
 			}
@@ -154,7 +164,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 			Content:     results,
 			HeadComment: node.Attr.HeadComment,
 			FootComment: node.Attr.FootComment,
-			Style:       node.Attr.Style,
+			Style:       style,
 		}
 		if !isBlock(rendered) {
 			rendered.LineComment = e.getLineComment(node)
-- 
2.43.0


From 56cd525dc1f3bec6ad2e5eaa395d6b58b755529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 48/54] fix: plain scalars with question marks in flow
 collections, like URLs, were errors

---
 internal/yaml/scannerc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/yaml/scannerc.go b/internal/yaml/scannerc.go
index 0180d4d..67cedce 100644
--- a/internal/yaml/scannerc.go
+++ b/internal/yaml/scannerc.go
@@ -2730,7 +2730,7 @@ func yaml_parser_scan_plain_scalar(parser *yaml_parser_t, token *yaml_token_t) b
 			if (parser.buffer[parser.buffer_pos] == ':' && is_blankz(parser.buffer, parser.buffer_pos+1)) ||
 				(parser.flow_level > 0 &&
 					(parser.buffer[parser.buffer_pos] == ',' ||
-						parser.buffer[parser.buffer_pos] == '?' || parser.buffer[parser.buffer_pos] == '[' ||
+						parser.buffer[parser.buffer_pos] == '[' ||
 						parser.buffer[parser.buffer_pos] == ']' || parser.buffer[parser.buffer_pos] == '{' ||
 						parser.buffer[parser.buffer_pos] == '}')) {
 				break
-- 
2.43.0


From 85a1fde66032a80c569ca9eae078b58923b2b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 49/54] fix: build printed a blank line behind the documents,
 which a text at their end took for its own

---
 cmd/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/build.go b/cmd/build.go
index 493c6f5..58466a2 100644
--- a/cmd/build.go
+++ b/cmd/build.go
@@ -68,7 +68,7 @@ var buildCmd = &cobra.Command{
 				fail(err)
 			}
 
-			fmt.Println(result)
+			fmt.Print(result)
 		case "json":
 			resultAny, err := e.EvaluateFileToAny(yamlFile)
 			if err != nil {
-- 
2.43.0


From d66d9542e595b9e912060d9b7403b09ce8fdbc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:30 +0000
Subject: [PATCH 50/54] fix: krm printed a blank line behind the documents,
 which a text at their end took for its own

---
 cmd/krm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/krm.go b/cmd/krm.go
index 065cdbc..134a97d 100644
--- a/cmd/krm.go
+++ b/cmd/krm.go
@@ -112,7 +112,7 @@ var krmCmd = &cobra.Command{
 				panic(err)
 			}
 
-			fmt.Println(result)
+			fmt.Print(result)
 
 		} else {
 
@@ -125,7 +125,7 @@ var krmCmd = &cobra.Command{
 				panic(err)
 			}
 
-			fmt.Println(result)
+			fmt.Print(result)
 		}
 
 	},
-- 
2.43.0


From 5f55829a77ab19b799cd2e40ba3e26343ba58e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:43 +0000
Subject: [PATCH 51/54] fix: an operator name with further parts is an unknown
 function, not the operator named by its first two

---
 engine/apply.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engine/apply.go b/engine/apply.go
index 26e4136..7ece6a0 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -50,9 +50,9 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			cdr[i] = positioned(node, car)
 		}
 
-		split := strings.Split(op, ".")
-		if len(split) > 1 { // lib operator
-			fn, ok := lib.GetOperator(split[0], split[1])
+		module, name, qualified := strings.Cut(op, ".")
+		if qualified { // lib operator
+			fn, ok := lib.GetOperator(module, name)
 			if !ok {
 				return nil, core.NewEvaluationError(car, fmt.Sprintf("unknown function name: %s", op))
 			}
-- 
2.43.0


From 464bfe8fc457570abf0b906a5c1e35fc69cf2451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 52/54] fix: in flow style, plain scalars may start with ? or
 :, and a colon in front of a comma or bracket ends a key

---
 internal/yaml/scannerc.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/internal/yaml/scannerc.go b/internal/yaml/scannerc.go
index 67cedce..be90a74 100644
--- a/internal/yaml/scannerc.go
+++ b/internal/yaml/scannerc.go
@@ -793,12 +793,14 @@ func yaml_parser_fetch_next_token(parser *yaml_parser_t) (ok bool) {
 	}
 
 	// Is it the key indicator?
-	if parser.buffer[parser.buffer_pos] == '?' && (parser.flow_level > 0 || is_blankz(parser.buffer, parser.buffer_pos+1)) {
+	if parser.buffer[parser.buffer_pos] == '?' && !yaml_parser_continues_plain(parser) {
 		return yaml_parser_fetch_key(parser)
 	}
 
 	// Is it the value indicator?
-	if parser.buffer[parser.buffer_pos] == ':' && (parser.flow_level > 0 || is_blankz(parser.buffer, parser.buffer_pos+1)) {
+	// In the flow context, it may touch its value if it follows a key that is not a plain scalar.
+	if parser.buffer[parser.buffer_pos] == ':' && (!yaml_parser_continues_plain(parser) ||
+		parser.flow_level > 0 && parser.simple_keys[len(parser.simple_keys)-1].possible) {
 		return yaml_parser_fetch_value(parser)
 	}
 
@@ -868,9 +870,8 @@ func yaml_parser_fetch_next_token(parser *yaml_parser_t) (ok bool) {
 		parser.buffer[parser.buffer_pos] == '"' || parser.buffer[parser.buffer_pos] == '%' ||
 		parser.buffer[parser.buffer_pos] == '@' || parser.buffer[parser.buffer_pos] == '`') ||
 		(parser.buffer[parser.buffer_pos] == '-' && !is_blank(parser.buffer, parser.buffer_pos+1)) ||
-		(parser.flow_level == 0 &&
-			(parser.buffer[parser.buffer_pos] == '?' || parser.buffer[parser.buffer_pos] == ':') &&
-			!is_blankz(parser.buffer, parser.buffer_pos+1)) {
+		((parser.buffer[parser.buffer_pos] == '?' || parser.buffer[parser.buffer_pos] == ':') &&
+			yaml_parser_continues_plain(parser)) {
 		return yaml_parser_fetch_plain_scalar(parser)
 	}
 
@@ -880,6 +881,17 @@ func yaml_parser_fetch_next_token(parser *yaml_parser_t) (ok bool) {
 		"found character that cannot start any token")
 }
 
+// Check if a plain scalar may go on behind the '?' or ':' at the current position.
+func yaml_parser_continues_plain(parser *yaml_parser_t) bool {
+	if parser.flow_level > 0 {
+		switch parser.buffer[parser.buffer_pos+1] {
+		case ',', '[', ']', '{', '}':
+			return false
+		}
+	}
+	return !is_blankz(parser.buffer, parser.buffer_pos+1)
+}
+
 func yaml_simple_key_is_valid(parser *yaml_parser_t, simple_key *yaml_simple_key_t) (valid, ok bool) {
 	if !simple_key.possible {
 		return false, true
@@ -2727,7 +2739,7 @@ func yaml_parser_scan_plain_scalar(parser *yaml_parser_t, token *yaml_token_t) b
 		for !is_blankz(parser.buffer, parser.buffer_pos) {
 
 			// Check for indicators that may end a plain scalar.
-			if (parser.buffer[parser.buffer_pos] == ':' && is_blankz(parser.buffer, parser.buffer_pos+1)) ||
+			if (parser.buffer[parser.buffer_pos] == ':' && !yaml_parser_continues_plain(parser)) ||
 				(parser.flow_level > 0 &&
 					(parser.buffer[parser.buffer_pos] == ',' ||
 						parser.buffer[parser.buffer_pos] == '[' ||
-- 
2.43.0


From 23fc28705c2b42a0441089716180dfe1b18d72b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 53/54] fix: lists are merged by a merge key that is not a
 string, such as the port of a container

---
 core/util.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/core/util.go b/core/util.go
index d266547..ceb522f 100644
--- a/core/util.go
+++ b/core/util.go
@@ -175,9 +175,10 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 						return nil, fmt.Errorf("expected YispNode for merge key, got %T", keyItem)
 					}
 
-					key, ok := keyNode.Value.(string)
-					if !ok {
-						return nil, fmt.Errorf("expected string for merge key, got %T", keyNode.Value)
+					switch keyNode.Kind {
+					case KindString, KindInt, KindFloat, KindBool:
+					default:
+						return nil, fmt.Errorf("expected a scalar for merge key, got %s", keyNode.Kind)
 					}
 
 					// Check if the key already exists in the result
@@ -203,12 +204,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 							return nil, fmt.Errorf("expected YispNode for existing merge key, got %T", existingKeyItem)
 						}
 
-						existingKey, ok := existingKeyNode.Value.(string)
-						if !ok {
-							return nil, fmt.Errorf("expected string for existing merge key, got %T", existingKeyNode.Value)
-						}
-
-						if existingKey == key {
+						if EqualNodes(existingKeyNode, keyNode) {
 							// Merge the srcMap into the existing dstMap
 							mergedNode, err := DeepMergeYispNode(dstNode, srcNode, subSchema)
 							if err != nil {
-- 
2.43.0


From bcac8ccc8b8d05b6d90a05255da6f36cd38a65d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 54/54] fix: lists with the strategy merge,retainKeys, such as
 the volumes of a pod, are merged

---
 core/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/util.go b/core/util.go
index ceb522f..4fd217b 100644
--- a/core/util.go
+++ b/core/util.go
@@ -148,7 +148,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 		var result []any
 		if strategy == "replace" {
 			result = srcArray
-		} else if strategy == "merge" {
+		} else if slices.Contains(strings.Split(strategy, ","), "merge") { // "merge,retainKeys" for the volumes of a pod
 			if mergeKey == "" {
 				result = append(result, dstArray...)
 				result = append(result, srcArray...)
-- 
2.43.0

