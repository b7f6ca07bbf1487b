From 304965dbdcde4aca257ae0e0b6e0f82fbcd750ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:45 +0000
Subject: [PATCH 01/47] fix: treat regex metacharacters in names, resources and
 operations literally

Only '*' and '?' are wildcards in the lists of names, resource names and
operations. Characters such as '+', '(' or '|' were passed to the regular
expression unescaped.
---
 MAPL_engine/string_utils.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 2387fce..3823836 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -42,6 +42,14 @@ func RemoveDotQuotes(str string) string {
 	return strOut
 }
 
+// convertWildcardsToRegex converts one string with wildcards ('*' and '?') to a regex of the full string. All other characters stand for themselves.
+func convertWildcardsToRegex(str string) string {
+	str = regexp.QuoteMeta(str)
+	str = strings.Replace(str, "\\*", ".*", -1)
+	str = strings.Replace(str, "\\?", ".", -1)
+	return "^" + str + "$" // force full string
+}
+
 // convertStringToRegex function converts one string to regex. Remove spaces, handle special characters and wildcards.
 func ConvertStringToRegex(str_in, method string) string {
 
@@ -54,14 +62,8 @@ func ConvertStringToRegex(str_in, method string) string {
 		L := len(str_list)
 
 		for i_str, str := range str_list {
-			str = strings.TrimSpace(str)               // remove leading and trailing spaces
-			str = strings.Replace(str, ".", "[.]", -1) // handle dot for conversion to regex
-			str = strings.Replace(str, "$", "\\$", -1)
-			str = strings.Replace(str, "^", "\\^", -1)
-			str = strings.Replace(str, "*", ".*", -1)
-			str = strings.Replace(str, "?", ".", -1)
-			str = strings.Replace(str, "/", "\\/", -1)
-			str = "^" + str + "$" // force full string
+			str = strings.TrimSpace(str) // remove leading and trailing spaces
+			str = convertWildcardsToRegex(str)
 			if i_str < L-1 {
 				str += "|"
 			}
@@ -90,14 +92,9 @@ func ConvertStringToExpandedSenderReceiver(str_in string, type_in string) ([]Exp
 				return []ExpandedSenderReceiver{}, fmt.Errorf("Type is 'subnet' but value is not an IP or CIDR")
 			}
 		}
-		str = strings.Replace(str, " ", "", -1)    // remove spaces
-		str = strings.Replace(str, ".", "[.]", -1) // handle dot for conversion to regex
-		str = strings.Replace(str, "$", "\\$", -1)
-		str = strings.Replace(str, "^", "\\^", -1)
-		str = strings.Replace(str, "*", ".*", -1)
-		str = strings.Replace(str, "?", ".", -1)
-		str = strings.Replace(str, "/", "\\/", -1)
-		str = "^" + str + "$" // force full string
+		str = strings.Replace(str, " ", "", -1) // remove spaces
+		str = convertWildcardsToRegex(str)
+		str = strings.NewReplacer("\\[", "[", "\\]", "]").Replace(str) // brackets are not allowed to be misaligned in names
 
 		re, err := regexp.Compile(str)
 		if err != nil {
-- 
2.43.0


From c26aa7dc1b8ef2a394d5cd5a73f4ed12989af2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:34:51 +0000
Subject: [PATCH 02/47] fix: let read include CONSUME and write include PRODUCE

The specification lists both kafka operations under the two verbs.
---
 MAPL_engine/string_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 3823836..2e4aa05 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -115,9 +115,9 @@ func ConvertOperationStringToRegex(str_in string) string {
 	case "*":
 		str_out = ".*"
 	case "write", "WRITE":
-		str_out = "(^POST$|^PUT$|^DELETE$)" // we cannot translate to ".*" because then rules of type "write:block" would apply to all messages.
+		str_out = "(^POST$|^PUT$|^DELETE$|^PRODUCE$)" // we cannot translate to ".*" because then rules of type "write:block" would apply to all messages.
 	case "read", "READ":
-		str_out = "(^GET$|^HEAD$|^OPTIONS$|^TRACE$|^read$|^READ$)"
+		str_out = "(^GET$|^HEAD$|^OPTIONS$|^TRACE$|^CONSUME$|^read$|^READ$)"
 	default:
 		str_out = ConvertStringToRegex(str_in, "WithWildcards") // we allow automatic use of wildcards in Operation attribute
 	}
-- 
2.43.0


From f02c58132089d67047de9ead5fad5ca95b6fd05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:22 +0000
Subject: [PATCH 03/47] fix: compare IP addresses of subnet senders and
 receivers by value

The same IPv6 address can be written in several ways, so comparing the
text of the rule with the text of the message missed equal addresses.
---
 MAPL_engine/check.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e0f5817..b9f8bbe 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -188,7 +188,7 @@ func TestSender(rule *Rule, message *MessageAttributes) bool {
 		switch expandedSender.Type {
 		case "subnet":
 			if expandedSender.IsIP {
-				match_temp = (expandedSender.Name == message.SourceIp)
+				match_temp = (expandedSender.Name == message.SourceIp) || expandedSender.IP.Equal(message.SourceNetIp) // an address may be written in several ways
 			}
 			if expandedSender.IsCIDR {
 				match_temp = expandedSender.CIDR.Contains(message.SourceNetIp)
@@ -220,7 +220,7 @@ func TestReceiver(rule *Rule, message *MessageAttributes) bool {
 		switch expandedReceiver.Type {
 		case "subnet":
 			if expandedReceiver.IsIP {
-				match_temp = (expandedReceiver.Name == message.DestinationIp)
+				match_temp = (expandedReceiver.Name == message.DestinationIp) || expandedReceiver.IP.Equal(message.DestinationNetIp) // an address may be written in several ways
 			}
 			if expandedReceiver.IsCIDR {
 				match_temp = expandedReceiver.CIDR.Contains(message.DestinationNetIp)
-- 
2.43.0


From c7158c77f1d1d15a2700ef0ed46ea7fdcc64e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:30 +0000
Subject: [PATCH 04/47] fix: do not panic on a rule that cannot be prepared

The error of the implicit preparation was ignored and the missing prepared
rule was used. An unprepared rule does not apply to any message and has no
mongo query.
---
 MAPL_engine/check.go             | 12 ++++++++++--
 MAPL_engine/rule_mongo_plugin.go |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index b9f8bbe..a50e12e 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -101,7 +101,11 @@ func Check(message *MessageAttributes, rules *Rules) (decision int, descisionStr
 func CheckOneRule(message *MessageAttributes, ruleOriginal *Rule) (int, []map[string]interface{}) {
 
 	if !ruleOriginal.ruleAlreadyPrepared {
-		ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		err := ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		if err != nil {
+			log.Printf("can't prepare rule: %v", err)
+			return DEFAULT, []map[string]interface{}{} // an invalid rule does not apply
+		}
 	}
 	rule := ruleOriginal.preparedRule // the prepared rule is the one used below!
 	// ----------------------
@@ -248,7 +252,11 @@ func TestReceiver(rule *Rule, message *MessageAttributes) bool {
 func TestConditions(rule *Rule, message *MessageAttributes) (bool, []map[string]interface{}) { // to-do return error
 
 	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
+		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
+		if err != nil {
+			log.Printf("can't prepare rule: %v", err)
+			return false, []map[string]interface{}{}
+		}
 	}
 
 	if rule.preparedRule.Conditions.ConditionsTree != nil {
diff --git a/MAPL_engine/rule_mongo_plugin.go b/MAPL_engine/rule_mongo_plugin.go
index a11265d..43abe2e 100644
--- a/MAPL_engine/rule_mongo_plugin.go
+++ b/MAPL_engine/rule_mongo_plugin.go
@@ -17,7 +17,10 @@ type MaplToMongoResult struct {
 func (rule *Rule) ToMongoQuery(parentField string) (MaplToMongoResult, error) {
 
 	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		if err != nil {
+			return MaplToMongoResult{"", nil}, err
+		}
 	}
 
 	if rule.preparedRule.Conditions.ConditionsTree == nil {
-- 
2.43.0


From 3b13a49dc7fee1b922f22b36d8fe3e4b17637302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:22 +0000
Subject: [PATCH 05/47] fix: handle messages without an encryption version

A condition on encryptionVersion dereferenced the missing version. Such a
condition is now false.
---
 MAPL_engine/check.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index a50e12e..ce59715 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -311,6 +311,9 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 		}
 
 	case ("encryptionVersion"):
+		if message.EncryptionVersion == nil {
+			return false, []map[string]interface{}{} // there is nothing to compare to
+		}
 		valueToCompareFloat = *message.EncryptionVersion
 		result = compareFloatFunc(valueToCompareFloat, c.Method, c.ValueFloat)
 
-- 
2.43.0


From ff1467ea4c51f78e78f4eafd08423d48a2a1764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:23 +0000
Subject: [PATCH 06/47] fix: compare numbers with condition values that are not
 plain numbers

A condition such as payloadSize GE 1Ki, or jsonpath:$.x EQ abc on a numeric
field, dereferenced a missing reference value. Values with units are now
compared as floats and a value that is not a number is different from any
number.
---
 MAPL_engine/check.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index ce59715..59aad53 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -288,7 +288,11 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 
 	case ("payloadSize"):
 		valueToCompareInt = message.RequestSize
-		result = compareIntFunc(valueToCompareInt, c.Method, c.ValueInt)
+		if c.ValueInt == nil { // for example, a value with units
+			result = compareFloatFunc(float64(valueToCompareInt), c.Method, c.ValueFloat)
+		} else {
+			result = compareIntFunc(valueToCompareInt, c.Method, c.ValueInt)
+		}
 
 	case ("requestUseragent"):
 		valueToCompareString = message.RequestUseragent
@@ -800,6 +804,9 @@ func getAttribute(sender_receiver, attribute string, message MessageAttributes)
 
 // compareIntFunc compares one int value according the method string.
 func compareIntFunc(value1 int64, method string, value2 *int64) bool { //value2 is the reference value from the rule
+	if value2 == nil { // the reference value is not an integer
+		return method == "NEQ" || method == "neq" || method == "ne" || method == "NE"
+	}
 	switch method {
 	case "EQ", "eq":
 		return (value1 == *value2)
@@ -819,6 +826,9 @@ func compareIntFunc(value1 int64, method string, value2 *int64) bool { //value2
 
 // compareFloatFunc compares one float value according the method string.
 func compareFloatFunc(value1 float64, method string, value2 *float64) bool { //value2 is the reference value from the rule
+	if value2 == nil { // the reference value is not a number
+		return method == "NEQ" || method == "neq" || method == "ne" || method == "NE"
+	}
 	switch method {
 	case "EQ", "eq":
 		return (value1 == *value2)
-- 
2.43.0


From de765f824f20ba9fbddc4f86d1136bb546493888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:23 +0000
Subject: [PATCH 07/47] fix: let NE behave as NEQ in jsonpath conditions on
 strings

NE was false for every string value.
---
 MAPL_engine/check.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 59aad53..0694c6f 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -582,7 +582,7 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		valueToCompareFloat = valueToCompareFloat * factor
 
 		if err != nil {
-			if method == "EQ" || method == "NEQ" {
+			if method == "EQ" || method == "NEQ" || method == "NE" {
 				result = compareStringFunc(valueToCompareString, c.Method, c.Value) // compare strings (strightforward comparison. use of wildcards is only via RE)
 			} else {
 				log.Println("can't parse jsonpath value [float]")
@@ -676,7 +676,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 			valueToCompareFloat, err = strconv.ParseFloat(valueStringWithoutUnits, 64)
 			if err != nil {
 				log.Println("can't parse jsonpath value [float]")
-				if method == "NEQ" {
+				if method == "NEQ" || method == "NE" {
 					return true
 				}
 				return false
@@ -686,7 +686,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		}
 
 		if !flagCompareToNumber {
-			if method == "EQ" || method == "NEQ" {
+			if method == "EQ" || method == "NEQ" || method == "NE" {
 				//return compareStringWithWildcardsFunc(valueToCompareString, c.Method, c.ValueStringRegex) // compare strings with wildcards
 				return compareStringFunc(valueToCompareString, c.Method, c.Value) // compare strings (strightforward comparison. use of wildcards is only via RE)
 			} else {
-- 
2.43.0


From d10a4717ade92f75bda928e25f7e6cbe3f8a2c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:23 +0000
Subject: [PATCH 08/47] fix: support lower case in, nin, re and nre with lists

The lower case methods pass the validation but the list was never
converted, so the conditions could not match.
---
 MAPL_engine/rules_load.go          | 9 +++++----
 MAPL_engine/validate_conditions.go | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index c92017f..b8a19ab 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -268,7 +268,7 @@ func ReplaceStringsAndListsInCondition(c *Condition, stringsAndlists PredefinedS
 	newList, ok, isReplaceable := isReplaceableList(c.Value, stringsAndlists)
 	if ok {
 		newValue := ""
-		if c.Method == "RE" || c.Method == "NRE" {
+		if slice.ContainsString(regexSlice, c.Method) {
 			newValue = convertListToRegexString(newList)
 			_, err := regexp.Compile(newValue)
 			if err != nil {
@@ -330,15 +330,16 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 	condition.OriginalMethod = condition.Method
 	condition.OriginalValue = condition.Value
 
-	if condition.Method == "IN" || condition.Method == "NIN" || condition.Method == "IS" {
+	method := strings.ToUpper(condition.Method)
+	if method == "IN" || method == "NIN" || method == "IS" {
 		tempString := strings.Replace(condition.Value, "[", "", -1)
 		tempString = strings.Replace(tempString, "]", "", -1)
 		tempString = strings.Replace(tempString, ",", "$|^", -1)
 		tempString = "^" + tempString + "$"
-		if condition.Method == "IN" || condition.Method == "IS" {
+		if method == "IN" || method == "IS" {
 			condition.Method = "RE"
 		}
-		if condition.Method == "NIN" {
+		if method == "NIN" {
 			condition.Method = "NRE"
 		}
 		condition.Value = tempString
diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 6a857e5..8ccba26 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -129,7 +129,7 @@ func validateMethod(condition *Condition) (bool, error) {
 	if !slice.ContainsString(supportedMethodsSlice, condition.Method) {
 		return false, fmt.Errorf("invalid method in condition [%v]", condition.Method)
 	}
-	if condition.Method == "IN" || condition.Method == "NIN" {
+	if strings.ToUpper(condition.Method) == "IN" || strings.ToUpper(condition.Method) == "NIN" {
 		L := len(condition.Value)
 		if L == 0 {
 			return false, fmt.Errorf("test membership in empty array")
-- 
2.43.0


From 23fd5b28811aff4427c967af27f6d5b79156fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:24 +0000
Subject: [PATCH 09/47] fix: make NEX true for a missing label

NEX on a label was false when the label does not exist.
---
 MAPL_engine/check.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 0694c6f..c7a7929 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -463,6 +463,9 @@ func testSenderLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("senderLabel without the correct format")
 		return false
 	}
+	if _, ok := message.SourceLabels[c.AttributeSenderLabelKey]; !ok && (c.Method == "NEX" || c.Method == "nex") {
+		return true // the key does not exist
+	}
 	if valueToCompareString1, ok := message.SourceLabels[c.AttributeSenderLabelKey]; ok { // enter the block only if the key exists
 		if c.ValueIsReceiverLabel {
 			if valueToCompareString2, ok2 := message.DestinationLabels[c.ValueReceiverLabelKey]; ok2 {
@@ -493,6 +496,9 @@ func testReceiverLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("receiverLabel without the correct format")
 		return false
 	}
+	if _, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]; !ok && (c.Method == "NEX" || c.Method == "nex") {
+		return true // the key does not exist
+	}
 	if valueToCompareString1, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]; ok { // enter the block only if the key exists
 		if c.Method == "RE" || c.Method == "re" || c.Method == "NRE" || c.Method == "nre" {
 			result = compareRegexFunc(valueToCompareString1, c.Method, c.ValueRegex)
-- 
2.43.0


From 3f5eed3489998671cabe94c0d52f573156157406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:24 +0000
Subject: [PATCH 10/47] fix: support wildcards in EQ and NEQ conditions on
 labels and attributes

The value was used as a regular expression. According to the documentation
it may contain wildcards, and regular expressions are used only with RE and
NRE.
---
 MAPL_engine/string_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 2e4aa05..8a92725 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -53,7 +53,7 @@ func convertWildcardsToRegex(str string) string {
 // convertStringToRegex function converts one string to regex. Remove spaces, handle special characters and wildcards.
 func ConvertStringToRegex(str_in, method string) string {
 
-	str_out := "^" + str_in + "$"
+	str_out := convertWildcardsToRegex(str_in)
 
 	if method == "IN" || method == "NIN" || method == "WithWildcards" { // We try to convert to a list only in case of IN or NIN
 		str_list := strings.Split(str_in, ",")
-- 
2.43.0


From 3d85ef1c23fc0367586d52dc2a59c2a1cbd85d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:02 +0000
Subject: [PATCH 11/47] fix: do not return values from an AND that is false

The values of the conditions before the false one were returned, and an OR
or a caller of TestConditions could report them.
---
 MAPL_engine/conditions_tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 9533e86..89c8394 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -130,7 +130,7 @@ func (a *And) Eval(message *MessageAttributes) (bool, []map[string]interface{})
 			extraData = extraDataTemp
 		}
 		if flag == false {
-			return false, extraData // no need to check the rest
+			return false, []map[string]interface{}{} // no need to check the rest
 		}
 	}
 	return true, extraData
-- 
2.43.0


From 5fce91ba498bcec9d6240c8921c0295a6f7321a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:02 +0000
Subject: [PATCH 12/47] fix: split raw json arrays correctly in ANY and ALL
 conditions

The elements of an array were found by counting braces. Braces inside of
strings broke the elements, scalars were dropped, and text replacements
damaged nested arrays and strings that contain brackets. An error in one of
several parents or missing json data was not handled.
---
 MAPL_engine/check.go | 146 +++++++++++++++++++------------------------
 1 file changed, 66 insertions(+), 80 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index c7a7929..62e7fe3 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -994,12 +994,11 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 
 func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error) {
 	// used in eval of ANY/ALL node (getting the data from the message attributes by the parentJsonpath)
-	arrayData := []byte{}
-	arrayDataTemp := []byte{}
+	arrayJson := [][]byte{}
 
-	err := errors.New("error")
 	parentJsonpathList := a.GetParentJsonpathAttributeArray()
 	for _, parentJsonpath := range parentJsonpathList {
+		jsonRaw := message.RequestJsonRaw
 		if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
 			parentJsonpath = strings.Replace(parentJsonpath, "$RELATIVE.", "$.", 1)
 			parentJsonpath = strings.Replace(parentJsonpath, "$KEY.", "$.", 1) // to do: this is not supported. remove
@@ -1007,39 +1006,26 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 			if parentJsonpath == "$RELATIVE*" {
 				parentJsonpath = "$*"
 			}
-			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRawRelative, parentJsonpath)
-		} else {
-			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRaw, parentJsonpath)
+			jsonRaw = message.RequestJsonRawRelative
 		}
-		if err == nil {
-			if len(arrayData) == 0 {
-				arrayData = arrayDataTemp
-			} else {
-				if len(arrayDataTemp) != 0 {
-					arrayData = append(arrayData, ',')
-					arrayData = append(arrayData, arrayDataTemp...)
-				}
-			}
+		if jsonRaw == nil {
+			return [][]byte{}, errors.New("no json data")
 		}
-	}
-
-	if err != nil {
-		return [][]byte{}, err
-	}
-
-	arrayData, err = getArrayFromArrayOfArrays(arrayData)
-	if err != nil {
-		return [][]byte{}, err
-	}
-
-	arrayJson, err := getArrayOfJsonsFromInterfaceArray(arrayData)
-
-	if err != nil {
-		arrayJson, err := getArrayOfJsonsFromMapStringInterface(arrayData)
+		arrayData, err := jsonslice.Get(*jsonRaw, parentJsonpath)
 		if err != nil {
 			return [][]byte{}, err
 		}
-		return arrayJson, nil
+		if len(arrayData) >= 2 {
+			arrayData = pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6
+		}
+		arrayJsonTemp, err := getArrayOfJsonsFromInterfaceArray(arrayData)
+		if err != nil {
+			arrayJsonTemp, err = getArrayOfJsonsFromMapStringInterface(arrayData)
+			if err != nil {
+				return [][]byte{}, err
+			}
+		}
+		arrayJson = append(arrayJson, arrayJsonTemp...)
 	}
 	return arrayJson, nil
 }
@@ -1073,30 +1059,61 @@ func getArrayOfJsonsFromInterfaceArray(arrayData []byte) ([][]byte, error) {
 		return [][]byte{}, fmt.Errorf("not array of jsons")
 	}
 
+	arrayJson := splitJsonArray(arrayData)
+	for len(arrayJson) > 0 { // in case of deepscan or more than one array reference we get an array of arrays. here we re-arrange it.
+		arrayJsonInner := [][]byte{}
+		for _, x := range arrayJson {
+			if x[0] != '[' {
+				return arrayJson, nil
+			}
+			arrayJsonInner = append(arrayJsonInner, splitJsonArray(x)...)
+		}
+		arrayJson = arrayJsonInner
+	}
+
+	return arrayJson, nil
+}
+
+func splitJsonArray(arrayData []byte) [][]byte {
+	// get the elements of a json array. brackets and commas in strings are part of the string.
 	arrayJson := [][]byte{}
-	c := 0
-	start := -1
+	if len(arrayData) == 0 || arrayData[0] != '[' {
+		return arrayJson
+	}
+
+	depth := 0
+	start := 1
+	inString := false
 	for i := 0; i < len(arrayData); i++ {
-		if arrayData[i] == '{' {
-			if c == 0 {
-				start = i
+		ch := arrayData[i]
+		if inString {
+			if ch == '\\' {
+				i += 1 // skip the escaped character
 			}
-			c += 1
-		}
-		if arrayData[i] == '}' {
-			c -= 1
-		}
-		if c == 0 {
-			if start == -1 {
-				continue
+			if ch == '"' {
+				inString = false
+			}
+			continue
+		}
+		switch ch {
+		case '"':
+			inString = true
+		case '{', '[':
+			depth += 1
+		case '}', ']':
+			depth -= 1
+		}
+		if (ch == ',' && depth == 1) || depth == 0 {
+			if i > start {
+				arrayJson = append(arrayJson, arrayData[start:i])
 			}
-			y := arrayData[start : i+1]
-			start = -1
-			arrayJson = append(arrayJson, y)
+			start = i + 1
+		}
+		if depth == 0 {
+			break
 		}
 	}
-
-	return arrayJson, nil
+	return arrayJson
 }
 
 func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
@@ -1117,34 +1134,3 @@ func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
 	}
 	return arrayJson, nil
 }
-
-func getArrayFromArrayOfArrays(arrayData []byte) ([]byte, error) {
-	if len(arrayData) < 2 {
-		return arrayData, nil
-	}
-
-	/*  slow. we should use "pretty.Ugly" instead
-	buffer := new(bytes.Buffer) // clean the json
-	err := json.Compact(buffer, arrayData)
-	if err != nil {
-		return []byte{}, err
-	}
-	arrayDataNew = buffer.Bytes()
-	*/
-
-	arrayDataNew := pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6
-
-	if arrayDataNew[0] != '[' || arrayDataNew[1] != '[' {
-		return arrayDataNew, nil
-	}
-
-	arrayDataString := string(arrayDataNew)
-	arrayDataString = strings.Replace(arrayDataString, "[[", "[", 1)
-	arrayDataString = strings.Replace(arrayDataString, "]]", "]", 1)
-	arrayDataString = strings.Replace(arrayDataString, "],[", ",", -1)
-
-	if strings.Contains(arrayDataString, "[[") || strings.Contains(arrayDataString, "]]") {
-		return []byte{}, fmt.Errorf("malformed arrayData")
-	}
-	return []byte(arrayDataString), nil
-}
-- 
2.43.0


From 0eb9aae1534f289540107193e9158e3a12d2de8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:03 +0000
Subject: [PATCH 13/47] fix: do not panic on unexpected document structure in
 decoded documents

ANY and ALL over a scalar, a relative parent or return value without an
element to refer to, and KEY or VALUE of something that is not a key-value
pair panicked or picked an arbitrary key. They now find nothing, as they do
with raw documents.
---
 MAPL_engine/check.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 62e7fe3..e92bcb3 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -371,6 +371,9 @@ func getExtraDataFromInterface(preparedReturnValueJsonpathQueryMap map[string]js
 	extraDataTemp := make(map[string]interface{})
 
 	for queryName, preparedQuery := range preparedReturnValueJsonpathQueryMap {
+		if preparedReturnValueJsonpathQueryRelativeFlag[queryName] && message.RequestRawInterfaceRelative == nil {
+			continue
+		}
 		if returnValueJsonpathMap[queryName] == "$*" {
 			if preparedReturnValueJsonpathQueryRelativeFlag[queryName] {
 				extraDataTemp[queryName] = *message.RequestRawInterfaceRelative
@@ -406,6 +409,9 @@ func getExtraDataFromByteArray(returnValueJsonpathMap map[string]string, returnV
 		var extraDataBytes []byte
 
 		if returnValueJsonpathQueryRelativeFlag[queryName] {
+			if message.RequestJsonRawRelative == nil {
+				continue
+			}
 			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRawRelative, queryString)
 		} else {
 			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRaw, queryString)
@@ -722,7 +728,10 @@ func getKeyValueFromInterface(c *Condition, message *MessageAttributes) (interfa
 	var err error
 	if c.AttributeJsonpathQuery == "$KEY" {
 		xx := (*message).RequestRawInterfaceRelative
-		yy := (*xx).(map[string]interface{})
+		yy, ok := (*xx).(map[string]interface{})
+		if !ok || len(yy) != 1 { // not a key-value pair
+			return nil, nil
+		}
 		for k := range yy {
 			valueToCompareInterface = k
 			err = nil
@@ -731,7 +740,10 @@ func getKeyValueFromInterface(c *Condition, message *MessageAttributes) (interfa
 	} else {
 
 		xx := (*message).RequestRawInterfaceRelative
-		yy := (*xx).(map[string]interface{})
+		yy, ok := (*xx).(map[string]interface{})
+		if !ok || len(yy) != 1 { // not a key-value pair
+			return nil, nil
+		}
 		for _, v := range yy {
 			if c.AttributeJsonpathQuery == "$VALUE" {
 				valueToCompareInterface = v
@@ -922,18 +934,13 @@ func getArrayOfInterfaces(a AnyAllNode, message *MessageAttributes) ([]interface
 	var arrayDataInterface interface{}
 	err := errors.New("error")
 	parentJsonpath := a.GetParentJsonpathAttribute()
+	if strings.HasPrefix(parentJsonpath, "$RELATIVE") && message.RequestRawInterfaceRelative == nil {
+		return []interface{}{}, errors.New("no relative data")
+	}
 	if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
 
 		if parentJsonpath == "$RELATIVE*" {
-			var temp []interface{}
-			xx := (*message).RequestRawInterfaceRelative
-			yy := (*xx).(map[string]interface{})
-			for k, v := range yy {
-				zz := make(map[string]interface{}, 1)
-				zz[k] = v
-				temp = append(temp, zz)
-			}
-			return temp, nil
+			return ArrangeArrayInterface(*message.RequestRawInterfaceRelative), nil
 		}
 
 		returnArray := []interface{}{}
@@ -975,7 +982,10 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 		if arrayDataInterface == nil {
 			return []interface{}{}
 		}
-		tempArray := arrayDataInterface.([]interface{})
+		tempArray, ok := arrayDataInterface.([]interface{})
+		if !ok { // neither an array nor a map
+			return []interface{}{}
+		}
 		tempArrayOut := []interface{}{}
 		for _, x := range tempArray {
 			switch x.(type) {
-- 
2.43.0


From 77d8858a1c0490bc9bcd9c2ff1deb6d9469986b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:03 +0000
Subject: [PATCH 14/47] fix: use the subfield in conditions on VALUE

With a decoded document $VALUE.x looked at all the fields of the value, and
with a raw document $VALUE["x"] looked at the whole value.
---
 MAPL_engine/check.go           | 4 ++--
 MAPL_engine/conditions_tree.go | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e92bcb3..da9b151 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -536,8 +536,8 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		}
 		if c.AttributeJsonpathQuery == "$KEY" || strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE") {
 			valueToCompareBytes, err = getKeyValue(*message.RequestJsonRawRelative, c.AttributeJsonpathQuery)
-			if strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE.") {
-				tempQuery := strings.Replace(c.AttributeJsonpathQuery, "$VALUE.", "$.", 1)
+			if err == nil && strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE") && c.AttributeJsonpathQuery != "$VALUE" {
+				tempQuery := strings.Replace(c.AttributeJsonpathQuery, "$VALUE", "$", 1)
 				valueToCompareBytes, err = jsonslice.Get(valueToCompareBytes, tempQuery)
 			}
 		} else {
diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 89c8394..60eb3bf 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -386,6 +386,9 @@ func prepareJsonpathQuery(query string) (jsonpath.FilterFunc, error) {
 	if query == "$*" {
 		query = "$.*"
 	}
+	if strings.HasPrefix(query, "$VALUE") && query != "$VALUE" {
+		query = strings.Replace(query, "$VALUE", "$", 1) // the path of the subfield within the value
+	}
 	if strings.Contains(query, "$KEY") || strings.Contains(query, "$VALUE") {
 		preparedJsonpath, _ := jsonpath.Prepare("$.*") // just instead of nil. we are not going to use it
 		return preparedJsonpath, nil
-- 
2.43.0


From f64c38217ef2d4805d7f7d0743f081791201693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:29 +0000
Subject: [PATCH 15/47] fix: compare strings and numbers of documents as they
 are

Quotes and brackets that are part of a string were removed, the escaping of
strings in raw documents was not, large numbers in decoded documents were
written with an exponent, and null existed in raw documents only.
---
 MAPL_engine/check.go | 55 +++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index da9b151..2932398 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -565,27 +565,30 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
-	valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
-	if len(valueToCompareString) == 0 {
+	if valueToCompareString == "null" {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
-	result := false
-	L := len(valueToCompareString) - 1
-	if L > 0 {
-		if valueToCompareString[0] == '"' && valueToCompareString[L] != '"' {
-			log.Println("quotation marks not aligned")
+	if valueToCompareString[0] == '"' { // a string. it is compared without the quotes and the escaping of the json format
+		var unquoted string
+		if err := json.Unmarshal(valueToCompareBytes, &unquoted); err != nil {
+			log.Println("can't parse jsonpath value [string]")
 			return false
 		}
-		if valueToCompareString[L] == '"' && valueToCompareString[0] != '"' {
-			log.Println("quotation marks not aligned")
+		valueToCompareString = unquoted
+	} else {
+		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+		unquoted, ok := removeQuotesFromResult(valueToCompareString)
+		if !ok {
 			return false
 		}
-		if valueToCompareString[L] == '"' && valueToCompareString[0] == '"' {
-			valueToCompareString = valueToCompareString[1:L]
-		}
+		valueToCompareString = unquoted
+	}
+	if len(valueToCompareString) == 0 {
+		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
+	result := false
 	method := strings.ToUpper(c.Method)
 	switch method {
 	case "GE", "GT", "LE", "LT", "EQ", "NEQ", "NE":
@@ -653,30 +656,27 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 	}
 
 	var valueToCompareString string
-	switch valueToCompareInterface.(type) {
+	switch v := valueToCompareInterface.(type) {
 	case map[string]interface{}, []interface{}:
 		jsonBytes, _ := json.Marshal(valueToCompareInterface)
+		unquoted, ok := removeQuotesFromResult(removeQuotesAndBrackets(string(jsonBytes)))
+		if !ok {
+			return false
+		}
+		valueToCompareString = unquoted
+	case float64: // in the json format (for example, 1000000 and not 1e+06)
+		jsonBytes, _ := json.Marshal(v)
 		valueToCompareString = string(jsonBytes)
+	case nil:
+		valueToCompareString = ""
 	default:
 		valueToCompareString = fmt.Sprintf("%v", valueToCompareInterface)
 	}
 
-	if len(valueToCompareString) == 0 || valueToCompareString == "<nil>" {
-		return whatToReturnInCaseOfEmptyResult(*c)
-	}
-
-	valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
-	valueToCompareString, ok := removeQuotesFromResult(valueToCompareString)
-	{
-		if !ok {
-			return false
-		}
-	}
-
 	result := false
 	method := strings.ToUpper(c.Method)
 	switch method {
@@ -789,7 +789,10 @@ func getKeyValue(jsonRaw []byte, attribute string) ([]byte, error) {
 		return []byte{}, err
 	}
 	if attribute == "$KEY" {
-		valueToCompareBytes = []byte(keys[0])
+		valueToCompareBytes, err = json.Marshal(keys[0])
+		if err != nil {
+			return []byte{}, err
+		}
 	} else {
 		z2, err := json.Marshal(z[keys[0]])
 		if err != nil {
-- 
2.43.0


From 46f0fef9ce883807ed7cb22ca8a4dee21f5cfb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:29 +0000
Subject: [PATCH 16/47] fix: do not take strings such as nan and inf for
 numbers

A string 'NaN' was different from itself and 'inf' was equal to
'Infinity'.
---
 MAPL_engine/check.go               | 10 ++--------
 MAPL_engine/rules_load.go          |  4 +---
 MAPL_engine/string_utils.go        | 14 ++++++++++++++
 MAPL_engine/validate_conditions.go |  4 +---
 4 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 2932398..3c8be6a 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -10,7 +10,6 @@ import (
 	"github.com/yalp/jsonpath"
 	"log"
 	"regexp"
-	"strconv"
 	"strings"
 )
 
@@ -592,10 +591,7 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 	method := strings.ToUpper(c.Method)
 	switch method {
 	case "GE", "GT", "LE", "LT", "EQ", "NEQ", "NE":
-		valueStringWithoutUnits, factor := convertStringWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string so we use a temporary one
-		valueToCompareFloat, err := strconv.ParseFloat(valueStringWithoutUnits, 64)
-		valueToCompareFloat = valueToCompareFloat * factor
-
+		valueToCompareFloat, err := parseFloatWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string
 		if err != nil {
 			if method == "EQ" || method == "NEQ" || method == "NE" {
 				result = compareStringFunc(valueToCompareString, c.Method, c.Value) // compare strings (strightforward comparison. use of wildcards is only via RE)
@@ -684,8 +680,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		flagCompareToNumber := false
 		var valueToCompareFloat float64
 		if c.ValueInt != nil || c.ValueFloat != nil {
-			valueStringWithoutUnits, factor := convertStringWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string so we use a temporary one
-			valueToCompareFloat, err = strconv.ParseFloat(valueStringWithoutUnits, 64)
+			valueToCompareFloat, err = parseFloatWithUnits(valueToCompareString) // if the conversion to float doesn't work we still want to use the original string
 			if err != nil {
 				log.Println("can't parse jsonpath value [float]")
 				if method == "NEQ" || method == "NE" {
@@ -693,7 +688,6 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 				}
 				return false
 			}
-			valueToCompareFloat = valueToCompareFloat * factor
 			flagCompareToNumber = true
 		}
 
diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index b8a19ab..3c47be5 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -346,9 +346,7 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 		condition.Value = tempString
 	}
 
-	tempString, factor := convertStringWithUnits(condition.Value)
-	valFloat, err := strconv.ParseFloat(tempString, 64)
-	valFloat = valFloat * factor
+	valFloat, err := parseFloatWithUnits(condition.Value)
 	if err == nil {
 		condition.ValueFloat = &valFloat
 	}
diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 8a92725..1eba706 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"math"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -155,6 +156,19 @@ func convertStringWithUnits(inputString string) (string, float64) {
 
 }
 
+// parseFloatWithUnits parses a number (with or without units). Strings such as "nan" or "inf" are not numbers.
+func parseFloatWithUnits(inputString string) (float64, error) {
+	stringWithoutUnits, factor := convertStringWithUnits(inputString)
+	val, err := strconv.ParseFloat(stringWithoutUnits, 64)
+	if err != nil {
+		return 0, err
+	}
+	if math.IsNaN(val) || math.IsInf(val, 0) {
+		return 0, fmt.Errorf("not a number [%v]", inputString)
+	}
+	return val * factor, nil
+}
+
 func removeQuotesAndBrackets(valueToCompareString string) string {
 	valueToCompareString = strings.Replace(valueToCompareString, "[[", "[", -1)
 	valueToCompareString = strings.Replace(valueToCompareString, "]]", "]", -1)
diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 8ccba26..994a04e 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -149,10 +149,8 @@ func validateMethod(condition *Condition) (bool, error) {
 
 func convertAndValidateNumericalValues(condition *Condition) (bool, error) {
 
-	tempString, factor := convertStringWithUnits(condition.Value)
 	isNum := false
-	valFloat, err := strconv.ParseFloat(tempString, 64)
-	valFloat = valFloat * factor
+	valFloat, err := parseFloatWithUnits(condition.Value)
 	if err == nil {
 		condition.ValueFloat = &valFloat
 		isNum = true
-- 
2.43.0


From 43e3eb2ecf39153be6b544c0bfd9dd1da3a8bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:30 +0000
Subject: [PATCH 17/47] fix: escape strings when conditions are marshalled to
 json

Control characters in values and quotes in the parents of ANY and ALL gave
invalid json. Such rules could not be prepared or stored.
---
 MAPL_engine/conditions_tree.go  | 12 ++++++++++--
 MAPL_engine/definitions_rule.go | 21 +++++++++++++++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 60eb3bf..64318f6 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -268,7 +268,11 @@ func (a *Any) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	parentJsonpathAttributeJson, err := json.Marshal(parentJsonpathAttributeString)
+	if err != nil {
+		return []byte{}, err
+	}
+	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":%s,`, parentJsonpathAttributeJson)
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath": %v,`, str, string(returnValueJsonpathJson))
@@ -482,7 +486,11 @@ func (a *All) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	parentJsonpathAttributeJson, err := json.Marshal(parentJsonpathAttributeString)
+	if err != nil {
+		return []byte{}, err
+	}
+	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":%s,`, parentJsonpathAttributeJson)
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath":%v,`, str, string(returnValueJsonpathJson))
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index b433801..8f40929 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -287,8 +287,6 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalAttribute) > 0 {
 		attributeString = c.OriginalAttribute
 	}
-	attributeString = strings.Replace(attributeString, "\\", "\\\\", -1)
-	attributeString = strings.Replace(attributeString, "\"", "\\\"", -1)
 
 	methodString := c.Method
 	if len(c.OriginalMethod) > 0 {
@@ -299,19 +297,30 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalValue) > 0 {
 		valueString = c.OriginalValue
 	}
-	valueString = strings.Replace(valueString, "\\", "\\\\", -1)
-	valueString = strings.Replace(valueString, "\"", "\\\"", -1)
 
 	returnValueJsonpath := c.ReturnValueJsonpath
 	if len(c.ReturnValueJsonpathOriginal) > 0 {
 		returnValueJsonpath = c.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v"}}`, attributeString, methodString, valueString)
+	attributeJson, err := json.Marshal(attributeString)
+	if err != nil {
+		return []byte{}, err
+	}
+	methodJson, err := json.Marshal(methodString)
+	if err != nil {
+		return []byte{}, err
+	}
+	valueJson, err := json.Marshal(valueString)
+	if err != nil {
+		return []byte{}, err
+	}
+
+	str := fmt.Sprintf(`{"condition":{"attribute":%s,"method":%s,"value":%s}}`, attributeJson, methodJson, valueJson)
 
 	if returnValueJsonpath != nil {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
-		str = fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v","returnValueJsonpath":%v}}`, attributeString, methodString, valueString, string(returnValueJsonpathJson))
+		str = fmt.Sprintf(`{"condition":{"attribute":%s,"method":%s,"value":%s,"returnValueJsonpath":%v}}`, attributeJson, methodJson, valueJson, string(returnValueJsonpathJson))
 	}
 	return []byte(str), nil
 }
-- 
2.43.0


From c02d05301074b5f03c8deaf7504d0830ea4e6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:30 +0000
Subject: [PATCH 18/47] fix: do not panic when loading rules with unexpected
 types

A condition with an attribute, method, key or path that is not a string
panicked. The attribute true may also be written without quotes.
---
 MAPL_engine/conditions_tree.go  | 12 +++++++++---
 MAPL_engine/definitions_rule.go |  8 ++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 64318f6..34f0bb7 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -844,7 +844,10 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 	for key, val := range v2 {
 		switch key {
 		case "parentJsonpathAttribute":
-			parentJsonpathAttribute := val.(string)
+			parentJsonpathAttribute, ok := val.(string)
+			if !ok {
+				return nil, fmt.Errorf("parentJsonpathAttribute is not a string [%v]", val)
+			}
 			if isValidParentJsonpathAttribute(parentJsonpathAttribute) {
 				anyAllNode.SetParentJsonpathAttribute(parentJsonpathAttribute)
 			} else {
@@ -863,7 +866,10 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 
 			returnValueJsonpathMap := map[string]string{}
 			for k, v := range returnValueJsonpath {
-				vString := v.(string)
+				vString, ok := v.(string)
+				if !ok {
+					return nil, fmt.Errorf("invalid returnValueJsonpath [%v is not a string]", v)
+				}
 				if strings.HasPrefix(vString, "jsonpath:$RELATIVE") {
 					returnValueJsonpathMap[k] = vString
 				} else {
@@ -928,7 +934,7 @@ func isValidParentJsonpathAttribute(parentJsonpathAttribute string) bool {
 func mapInterfaceToMapString(node map[interface{}]interface{}) map[string]interface{} {
 	node_out := make(map[string]interface{})
 	for k, val := range node {
-		node_out[k.(string)] = val
+		node_out[fmt.Sprintf("%v", k)] = val // keys are not necessarily strings in yaml
 	}
 	return node_out
 }
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 8f40929..5881ad0 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -170,10 +170,10 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 	for k, val := range v {
 		switch k {
 		case "attribute", "Attribute":
-			c.Attribute = val.(string)
+			c.Attribute = fmt.Sprintf("%v", val)
 
 		case "method", "Method":
-			c.Method = val.(string)
+			c.Method = fmt.Sprintf("%v", val)
 
 		case "value", "Value":
 			c.Value = fmt.Sprintf("%v", val) // to avoid interface interpreted as int which causes panic
@@ -184,12 +184,12 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 			case map[string]interface{}:
 				val2 := val.(map[string]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk] = vv.(string)
+					c.ReturnValueJsonpath[kk] = fmt.Sprintf("%v", vv)
 				}
 			case map[interface{}]interface{}:
 				val2 := val.(map[interface{}]interface{})
 				for kk, vv := range val2 {
-					c.ReturnValueJsonpath[kk.(string)] = vv.(string)
+					c.ReturnValueJsonpath[fmt.Sprintf("%v", kk)] = fmt.Sprintf("%v", vv)
 				}
 			}
 		}
-- 
2.43.0


From 98349375e3c80ffa18040e37b0e51dc4ad167823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:31 +0000
Subject: [PATCH 19/47] fix: reject boolean nodes without conditions

An empty NOT, or an ANY or ALL without a condition, panicked later. An empty
OR was dropped when the rule was prepared, so the rule applied to every
message. All but the last condition of a NOT were ignored.
---
 MAPL_engine/conditions_tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 34f0bb7..43d91cd 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -841,6 +841,7 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 		anyAllNode = &All{}
 	}
 
+	numConditions := 0
 	for key, val := range v2 {
 		switch key {
 		case "parentJsonpathAttribute":
@@ -883,8 +884,12 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 				return nil, err
 			}
 			anyAllNode.Append(node)
+			numConditions += 1
 		}
 	}
+	if numConditions != 1 {
+		return nil, fmt.Errorf("ANY/ALL node must have exactly one condition")
+	}
 	if anyAllNode.GetParentJsonpathAttribute() == "" {
 		return nil, fmt.Errorf("parentJsonpathAttribute is missing")
 	}
@@ -970,6 +975,12 @@ func handleInterfaceArray(node interface{}, parentString string) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(v2) == 0 {
+		return nil, fmt.Errorf("%v node without conditions", parentString)
+	}
+	if parentString == "NOT" && len(v2) != 1 {
+		return nil, fmt.Errorf("NOT node must have exactly one condition")
+	}
 	for _, subNode := range v2 {
 		subNode2, err := InterpretNode(subNode, "") // recursion!
 		if err != nil {
-- 
2.43.0


From f2829a1294df7adb6f6332feb2510ac06d67c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:31 +0000
Subject: [PATCH 20/47] fix: read large numbers in conditions the same way from
 json and yaml

The value 1000000 was read from json as 1e+06, which gives another hash and
another text.
---
 MAPL_engine/definitions_rule.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 5881ad0..8979309 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -8,6 +8,7 @@ import (
 	dc "gopkg.in/getlantern/deepcopy.v1"
 	"net"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -177,6 +178,9 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 
 		case "value", "Value":
 			c.Value = fmt.Sprintf("%v", val) // to avoid interface interpreted as int which causes panic
+			if valFloat, ok := val.(float64); ok {
+				c.Value = strconv.FormatFloat(valFloat, 'f', -1, 64) // all numbers in json are floats. avoid an exponent
+			}
 
 		case "returnValueJsonpath", "ReturnValueJsonpath":
 			c.ReturnValueJsonpath = make(map[string]string)
-- 
2.43.0


From 874d489d03ad59bba3d0cf21dcae06d75605d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:31 +0000
Subject: [PATCH 21/47] fix: do not panic when printing a rule without
 conditions

---
 MAPL_engine/tools.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/tools.go b/MAPL_engine/tools.go
index 9a57538..e901df6 100644
--- a/MAPL_engine/tools.go
+++ b/MAPL_engine/tools.go
@@ -158,7 +158,9 @@ func GetRuleStrings(r *Rule) RuleStrings {
 		output.DecisionString = r.Decision
 	}
 
-	output.ConditionsString = r.Conditions.ConditionsTree.String()
+	if r.Conditions.ConditionsTree != nil {
+		output.ConditionsString = r.Conditions.ConditionsTree.String()
+	}
 
 	return output
 }
-- 
2.43.0


From 5dd23803342493e7ac9e639d8aace847c3ca3867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:35 +0000
Subject: [PATCH 22/47] fix: conditions on lists and objects do not depend on
 the way they are written

Lists that do not consist of strings only never existed, and the spacing and
escaping of raw documents took part in the comparison.
---
 MAPL_engine/check.go        | 14 ++------------
 MAPL_engine/string_utils.go | 36 ++++++++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 3c8be6a..bea9743 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -576,12 +576,7 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		}
 		valueToCompareString = unquoted
 	} else {
-		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
-		unquoted, ok := removeQuotesFromResult(valueToCompareString)
-		if !ok {
-			return false
-		}
-		valueToCompareString = unquoted
+		valueToCompareString = removeQuotesFromResult(removeQuotesAndBrackets(normalizeJson(valueToCompareString)))
 	}
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
@@ -654,12 +649,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 	var valueToCompareString string
 	switch v := valueToCompareInterface.(type) {
 	case map[string]interface{}, []interface{}:
-		jsonBytes, _ := json.Marshal(valueToCompareInterface)
-		unquoted, ok := removeQuotesFromResult(removeQuotesAndBrackets(string(jsonBytes)))
-		if !ok {
-			return false
-		}
-		valueToCompareString = unquoted
+		valueToCompareString = removeQuotesFromResult(removeQuotesAndBrackets(marshalToText(valueToCompareInterface)))
 	case float64: // in the json format (for example, 1000000 and not 1e+06)
 		jsonBytes, _ := json.Marshal(v)
 		valueToCompareString = string(jsonBytes)
diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 1eba706..7c76df9 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -1,8 +1,9 @@
 package MAPL_engine
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
-	"log"
 	"math"
 	"regexp"
 	"strconv"
@@ -185,18 +186,37 @@ func removeQuotesAndBrackets(valueToCompareString string) string {
 	return valueToCompareString
 }
 
-func removeQuotesFromResult(str string) (string, bool) {
+func removeQuotesFromResult(str string) string {
 
 	L := len(str) - 1
 	if L > 0 {
-		if (str[0] == '"' && str[L] != '"') || (str[L] == '"' && str[0] != '"') {
-			log.Println("quotation marks not aligned")
-			return "", false
-		}
-
 		if str[L] == '"' && str[0] == '"' {
 			str = str[1:L]
 		}
 	}
-	return str, true
+	return str
+}
+
+// normalizeJson rewrites the text of lists and objects: no white spaces, sorted keys and no unnecessary escaping.
+func normalizeJson(str string) string {
+	if !strings.HasPrefix(str, "[") && !strings.HasPrefix(str, "{") {
+		return str
+	}
+	decoder := json.NewDecoder(strings.NewReader(str))
+	decoder.UseNumber() // keep the numbers as they are
+	var val interface{}
+	if err := decoder.Decode(&val); err != nil {
+		return str
+	}
+	return marshalToText(val)
+}
+
+func marshalToText(val interface{}) string {
+	var buffer bytes.Buffer
+	encoder := json.NewEncoder(&buffer)
+	encoder.SetEscapeHTML(false)
+	if err := encoder.Encode(val); err != nil {
+		return ""
+	}
+	return strings.TrimSuffix(buffer.String(), "\n")
 }
-- 
2.43.0


From dabb91f213a6ea2dab39938bd2c361b4a4188aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:23 +0000
Subject: [PATCH 23/47] fix: a label with an empty value exists

Both EX and NEX were true for it.
---
 MAPL_engine/check.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index bea9743..d185a8d 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -468,8 +468,9 @@ func testSenderLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("senderLabel without the correct format")
 		return false
 	}
-	if _, ok := message.SourceLabels[c.AttributeSenderLabelKey]; !ok && (c.Method == "NEX" || c.Method == "nex") {
-		return true // the key does not exist
+	if c.Method == "NEX" || c.Method == "nex" { // just test the existence of the key
+		_, ok := message.SourceLabels[c.AttributeSenderLabelKey]
+		return !ok
 	}
 	if valueToCompareString1, ok := message.SourceLabels[c.AttributeSenderLabelKey]; ok { // enter the block only if the key exists
 		if c.ValueIsReceiverLabel {
@@ -501,8 +502,9 @@ func testReceiverLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("receiverLabel without the correct format")
 		return false
 	}
-	if _, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]; !ok && (c.Method == "NEX" || c.Method == "nex") {
-		return true // the key does not exist
+	if c.Method == "NEX" || c.Method == "nex" { // just test the existence of the key
+		_, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]
+		return !ok
 	}
 	if valueToCompareString1, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]; ok { // enter the block only if the key exists
 		if c.Method == "RE" || c.Method == "re" || c.Method == "NRE" || c.Method == "nre" {
-- 
2.43.0


From 1441aacbd7898cad79437c3a9abd2aae83f531d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:22 +0000
Subject: [PATCH 24/47] fix: allow references to predefined strings in
 numerical conditions

A condition such as "GT #limit" was rejected when the rule was loaded,
before the definitions were known. The value is now validated when the
reference is replaced.
---
 MAPL_engine/conditions_tree.go     |  6 +++++-
 MAPL_engine/validate_conditions.go | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 43d91cd..0b6cdda 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -957,7 +957,11 @@ func getNodeValType(node map[string]interface{}, parentString string) (interface
 
 func prepareOneConditionNode(cond ConditionNode) (Node, error) {
 	c := ConditionFromConditionNode(cond)
-	valid, err := ValidateOneCondition(&c)
+	validate := ValidateOneCondition
+	if strings.HasPrefix(c.Value, "#") {
+		validate = validateAttributeAndMethod // the value itself is validated when the reference is replaced
+	}
+	valid, err := validate(&c)
 	if err != nil {
 		return nil, err
 	}
diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 994a04e..b7b4d93 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -18,6 +18,20 @@ var allowedEncryptionVersionOperation = []string{"eq", "lt", "le", "gt", "ge", "
 // ValidateRuleConditions as much as possible
 func ValidateOneCondition(condition *Condition) (bool, error) {
 
+	flagAttMethod, err := validateAttributeAndMethod(condition)
+	if err != nil {
+		return flagAttMethod, err
+	}
+
+	flagNumerical, err := convertAndValidateNumericalValues(condition)
+	if err != nil {
+		return flagNumerical, err
+	}
+	return true, nil
+}
+
+func validateAttributeAndMethod(condition *Condition) (bool, error) {
+
 	flagAtt, err := validateAttribute(condition)
 	if err != nil {
 		return flagAtt, err
@@ -27,11 +41,6 @@ func ValidateOneCondition(condition *Condition) (bool, error) {
 	if err != nil {
 		return flagMethod, err
 	}
-
-	flagNumerical, err := convertAndValidateNumericalValues(condition)
-	if err != nil {
-		return flagNumerical, err
-	}
 	return true, nil
 }
 
-- 
2.43.0


From d3783d3eba472e9850122c97752b717ed76cad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:22 +0000
Subject: [PATCH 25/47] fix: reject membership in an empty list

IN and NIN were rejected without a value but accepted with the value
"[]", and IS was not tested at all.
---
 MAPL_engine/validate_conditions.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index b7b4d93..61d9df8 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -138,13 +138,12 @@ func validateMethod(condition *Condition) (bool, error) {
 	if !slice.ContainsString(supportedMethodsSlice, condition.Method) {
 		return false, fmt.Errorf("invalid method in condition [%v]", condition.Method)
 	}
-	if strings.ToUpper(condition.Method) == "IN" || strings.ToUpper(condition.Method) == "NIN" {
-		L := len(condition.Value)
-		if L == 0 {
-			return false, fmt.Errorf("test membership in empty array")
-		}
+	if strings.ToUpper(condition.Method) == "IN" || strings.ToUpper(condition.Method) == "NIN" || condition.Method == "IS" {
 		tempString := strings.Replace(condition.Value, "[", "", -1)
 		tempString = strings.Replace(tempString, "]", "", -1)
+		if len(strings.TrimSpace(tempString)) == 0 {
+			return false, fmt.Errorf("test membership in empty array")
+		}
 		tempString = strings.Replace(tempString, ",", "$|^", -1)
 		tempString = "^" + tempString + "$"
 
-- 
2.43.0


From 760e58da7c7eb0cc076c46fc4222749c84e98dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:27 +0000
Subject: [PATCH 26/47] fix: reject condition nodes with an empty keyword

---
 MAPL_engine/conditions_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 0b6cdda..8c53333 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -951,6 +951,9 @@ func getNodeValType(node map[string]interface{}, parentString string) (interface
 		return nil, "", fmt.Errorf("map of size larger than 1 [node] %v", parentString)
 	}
 	key := keys[0]
+	if key == "" {
+		return nil, "", fmt.Errorf("node with an empty keyword")
+	}
 	return node[key], key, nil
 
 }
-- 
2.43.0


From 09d69776dc28856ba086fa75f3391418ed10f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:47 +0000
Subject: [PATCH 27/47] fix: translate paths that start with a dot to database
 queries

A condition on "jsonpath:.a.b" is evaluated like "jsonpath:$.a.b", but its
query had an empty field name.
---
 MAPL_engine/mongo_plugin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 2a60930..c9265d2 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -166,13 +166,14 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		initialSteps = append(initialSteps, addFieldStep)
 	}
 
-	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") {
+	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") || strings.HasPrefix(c.OriginalAttribute, "jsonpath:.") {
 
 		newBase := ""
 		if len(base) > 0 {
 			newBase = base + "."
 		}
-		field = strings.Replace(c.OriginalAttribute, "jsonpath:$.", newBase, 1)
+		field = strings.Replace(c.OriginalAttribute, "jsonpath:.", "jsonpath:$.", 1)
+		field = strings.Replace(field, "jsonpath:$.", newBase, 1)
 	}
 
 	field, err := removeQuotes(field)
-- 
2.43.0


From 488c9d9df0a795d12beac08cc3b64a849bf26600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:48:47 +0000
Subject: [PATCH 28/47] fix: field names of ANY and ALL parents in database
 queries

With an empty base field the name started with a dot, and indexes and
quoted keys were copied into the name as they are.
---
 MAPL_engine/mongo_plugin.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index c9265d2..d6e8782 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -67,10 +67,10 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
+	parentField, err := parentToField(a.ParentJsonpathAttributeOriginal, base)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
+	}
 
 	q, pipeline, err := a.Node.ToMongoQuery(base, "", inArrayCounter+1)
 	if err != nil {
@@ -97,10 +97,10 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
+	parentField, err := parentToField(a.ParentJsonpathAttributeOriginal, base)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
+	}
 
 	q, pipeline, err := a.Node.ToMongoQuery(base, parentField, inArrayCounter+1)
 	if err != nil {
@@ -222,6 +222,18 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	return q, initialSteps, nil
 }
 
+func parentToField(parent string, base string) (string, error) {
+	newBase := ""
+	if len(base) > 0 {
+		newBase = base + "."
+	}
+	field := strings.Replace(parent, "jsonpath:$.", newBase, 1)
+	field = strings.Replace(field, "jsonpath:$RELATIVE.", "", 1)
+	field = strings.Replace(field, "[:]", "", -1)
+	field = strings.Replace(field, "[*]", "", -1)
+	return removeQuotes(field)
+}
+
 func isNumber(str string) (bool, float64) {
 	if s, err := strconv.ParseFloat(str, 64); err == nil {
 		return true, s
@@ -256,6 +268,7 @@ func removeQuotes(str string) (string, error) {
 			break
 		}
 	}
+	str = strings.TrimPrefix(str, ".")
 
 	return str, nil
 }
-- 
2.43.0


From 3b867edf456f6f4bc25eb59363f0d634e489c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:26 +0000
Subject: [PATCH 29/47] fix: refuse all deep scans in database queries

Deep scans were refused only at the start of the parent of ANY and ALL.
Elsewhere ".." was silently read as "." and the query selected other
documents than the rule.
---
 MAPL_engine/mongo_plugin.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index d6e8782..b4cee84 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -64,7 +64,7 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
-	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
+	if strings.Contains(a.ParentJsonpathAttributeOriginal, "..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
 	parentField, err := parentToField(a.ParentJsonpathAttributeOriginal, base)
@@ -94,7 +94,7 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 		inArrayCounter += 1
 	}
 
-	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
+	if strings.Contains(a.ParentJsonpathAttributeOriginal, "..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
 	parentField, err := parentToField(a.ParentJsonpathAttributeOriginal, base)
@@ -126,6 +126,10 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		return bson.M{}, []bson.M{}, fmt.Errorf("attribute is not a jsonpath")
 	}
 
+	if strings.Contains(c.OriginalAttribute, "..") {
+		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
+	}
+
 	var field string
 	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$RELATIVE") {
 		field = strings.Replace(c.OriginalAttribute, "jsonpath:$RELATIVE.", "", 1)
-- 
2.43.0


From bb03fc97a04e39910a990c441a167572aedf7bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:27 +0000
Subject: [PATCH 30/47] fix: NEQ in database queries does not select missing
 fields

A NEQ condition is false when the attribute is missing, while $ne is true.
The query now asks for the field to exist, as the one for NRE does.
---
 MAPL_engine/mongo_plugin.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index b4cee84..6697595 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -199,7 +199,9 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	case "EQ":
 		q = bson.M{field: bson.M{"$eq": valToUse}}
 	case "NEQ", "NE":
-		q = bson.M{field: bson.M{"$ne": valToUse}}
+		q1 := bson.M{field: bson.M{"$ne": valToUse}}
+		q2 := bson.M{field: bson.M{"$exists": true}}
+		q = bson.M{"$and": []bson.M{q1, q2}}
 	case "GT":
 		q = bson.M{field: bson.M{"$gt": valToUse}}
 	case "GE":
-- 
2.43.0


From 9a1605c8c7b4af986e1414fe6316130f175084be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:27 +0000
Subject: [PATCH 31/47] fix: compare booleans in database queries

Conditions with the values true and false were translated to comparisons
with strings, which never hold for booleans in the documents.
---
 MAPL_engine/mongo_plugin.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 6697595..5178693 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -193,13 +193,21 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		valToUse = c.Value
 	}
 
+	eq := bson.M{"$eq": valToUse}
+	ne := bson.M{"$ne": valToUse}
+	if c.Value == "true" || c.Value == "false" { // the value may be a boolean in the document
+		vals := []interface{}{c.Value, c.Value == "true"}
+		eq = bson.M{"$in": vals}
+		ne = bson.M{"$nin": vals}
+	}
+
 	q := bson.M{}
 
 	switch strings.ToUpper(c.Method) {
 	case "EQ":
-		q = bson.M{field: bson.M{"$eq": valToUse}}
+		q = bson.M{field: eq}
 	case "NEQ", "NE":
-		q1 := bson.M{field: bson.M{"$ne": valToUse}}
+		q1 := bson.M{field: ne}
 		q2 := bson.M{field: bson.M{"$exists": true}}
 		q = bson.M{"$and": []bson.M{q1, q2}}
 	case "GT":
-- 
2.43.0


From b1d810d5230338d85aa7ec9d40ae2007e2bd841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:27 +0000
Subject: [PATCH 32/47] fix: numbers and booleans in IN and NIN in database
 queries

The list is translated to a regex, which never matches numbers and
booleans in the documents. They are now compared as well.
---
 MAPL_engine/mongo_plugin.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 5178693..cf3d01c 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -224,10 +224,17 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		q = bson.M{field: bson.M{"$exists": false}}
 	case "RE":
 		q = bson.M{field: bson.M{"$regex": c.Value}}
+		if vals := nonStringListValues(c); len(vals) > 0 {
+			q = bson.M{"$or": []bson.M{q, {field: bson.M{"$in": vals}}}}
+		}
 	case "NRE":
 		q1 := bson.M{field: bson.M{"$not": bson.M{"$regex": c.Value}}}
 		q2 := bson.M{field: bson.M{"$exists": true}}
-		q = bson.M{"$and": []bson.M{q1, q2}}
+		q_array := []bson.M{q1, q2}
+		if vals := nonStringListValues(c); len(vals) > 0 {
+			q_array = append(q_array, bson.M{field: bson.M{"$nin": vals}})
+		}
+		q = bson.M{"$and": q_array}
 		// db.raw_data.find({"$and":[{"raw.metadata.labels.foo":{"$not":{"$regex":"ar2"}}},{"raw.metadata.labels.foo":{"$exists":true}}]})
 	case "IN", "NIN": // it is not supported natively. we convert it to RE/NRE first which are supported.
 		return bson.M{}, []bson.M{}, fmt.Errorf("methods IN,NIN are not supported yet")
@@ -236,6 +243,27 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	return q, initialSteps, nil
 }
 
+// nonStringListValues returns the numbers and booleans in the list of an IN, IS or NIN
+// condition. The regex that such a condition is converted to only matches strings.
+func nonStringListValues(c *Condition) []interface{} {
+	vals := []interface{}{}
+	method := strings.ToUpper(c.OriginalMethod)
+	if method != "IN" && method != "IS" && method != "NIN" {
+		return vals
+	}
+	list := strings.Replace(c.OriginalValue, "[", "", -1)
+	list = strings.Replace(list, "]", "", -1)
+	for _, val := range strings.Split(list, ",") {
+		if val == "true" || val == "false" {
+			vals = append(vals, val == "true")
+		}
+		if ok, num := isNumber(val); ok && strconv.FormatFloat(num, 'f', -1, 64) == val {
+			vals = append(vals, num)
+		}
+	}
+	return vals
+}
+
 func parentToField(parent string, base string) (string, error) {
 	newBase := ""
 	if len(base) > 0 {
-- 
2.43.0


From bbbf74a16b0d3286131d37b8a2ea9b1ba58ff30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:02 +0000
Subject: [PATCH 33/47] fix: refuse paths the database query cannot look at
 within ANY and ALL

Inside $elemMatch fields are looked up in the element, so conditions on
paths from the root were compared with the wrong values. Conditions on the
element itself were translated to a field called "jsonpath:$RELATIVE".
Both now give an error.
---
 MAPL_engine/mongo_plugin.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index cf3d01c..d3f646d 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -61,13 +61,14 @@ func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int)
 }
 
 func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+	insideAnyAll := inArrayCounter > 0
 	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
 	if strings.Contains(a.ParentJsonpathAttributeOriginal, "..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField, err := parentToField(a.ParentJsonpathAttributeOriginal, base)
+	parentField, err := parentToField(a.ParentJsonpathAttributeOriginal, base, insideAnyAll)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
@@ -90,6 +91,7 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 
 func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
 
+	insideAnyAll := inArrayCounter > 0
 	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
 		inArrayCounter += 1
 	}
@@ -97,7 +99,7 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.Contains(a.ParentJsonpathAttributeOriginal, "..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField, err := parentToField(a.ParentJsonpathAttributeOriginal, base)
+	parentField, err := parentToField(a.ParentJsonpathAttributeOriginal, base, insideAnyAll)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
@@ -132,6 +134,9 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 
 	var field string
 	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$RELATIVE") {
+		if !strings.HasPrefix(c.OriginalAttribute, "jsonpath:$RELATIVE.") {
+			return bson.M{}, []bson.M{}, fmt.Errorf("path of the element itself is not supported")
+		}
 		field = strings.Replace(c.OriginalAttribute, "jsonpath:$RELATIVE.", "", 1)
 	}
 
@@ -172,6 +177,9 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 
 	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") || strings.HasPrefix(c.OriginalAttribute, "jsonpath:.") {
 
+		if inArrayCounter > 0 {
+			return bson.M{}, []bson.M{}, fmt.Errorf("path from the root within ANY/ALL is not supported") // $elemMatch only sees the element
+		}
 		newBase := ""
 		if len(base) > 0 {
 			newBase = base + "."
@@ -264,7 +272,13 @@ func nonStringListValues(c *Condition) []interface{} {
 	return vals
 }
 
-func parentToField(parent string, base string) (string, error) {
+func parentToField(parent string, base string, insideAnyAll bool) (string, error) {
+	if insideAnyAll && !strings.HasPrefix(parent, "jsonpath:$RELATIVE") {
+		return "", fmt.Errorf("path from the root within ANY/ALL is not supported") // $elemMatch only sees the element
+	}
+	if strings.HasPrefix(parent, "jsonpath:$RELATIVE") && !strings.HasPrefix(parent, "jsonpath:$RELATIVE.") {
+		return "", fmt.Errorf("path of the element itself is not supported")
+	}
 	newBase := ""
 	if len(base) > 0 {
 		newBase = base + "."
-- 
2.43.0


From 4b2ca1f8f3afb2c2f1f00f390f34875516953ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:40 +0000
Subject: [PATCH 34/47] fix: conditions on KEY and VALUE in database queries

Several conditions on one entry could be met by different entries, negative
conditions were only true if no entry had the value, and below AND, OR and
NOT the name of the parent was lost. The entries are now matched one by one
with $elemMatch.
---
 MAPL_engine/mongo_plugin.go | 18 +++++++++---------
 docs/Mongo_Plugin.md        |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index d3f646d..6066a84 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -7,13 +7,13 @@ import (
 	"strings"
 )
 
-func (a *And) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+func (a *And) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
 	q_array := []bson.M{}
 	pipeline := []bson.M{}
 
 	for _, node := range a.Nodes {
-		q, pipelineAppend, err := node.ToMongoQuery(base, "", inArrayCounter)
+		q, pipelineAppend, err := node.ToMongoQuery(base, parentString, inArrayCounter)
 		if err != nil {
 			return bson.M{}, []bson.M{}, err
 		}
@@ -28,12 +28,12 @@ func (a *And) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	return q_and, pipeline, nil
 }
 
-func (o *Or) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+func (o *Or) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
 	q_array := []bson.M{}
 	pipeline := []bson.M{}
 	for _, node := range o.Nodes {
-		q, pipelineAppend, err := node.ToMongoQuery(base, "", inArrayCounter)
+		q, pipelineAppend, err := node.ToMongoQuery(base, parentString, inArrayCounter)
 		if err != nil {
 			return bson.M{}, []bson.M{}, err
 		}
@@ -48,9 +48,9 @@ func (o *Or) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	return q_or, pipeline, nil
 }
 
-func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
-	q, pipeline, err := n.Node.ToMongoQuery(base, "", inArrayCounter)
+	q, pipeline, err := n.Node.ToMongoQuery(base, parentString, inArrayCounter)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
@@ -113,7 +113,7 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if len(pipeline) == 0 {
 		q_all = bson.M{parentField: bson.M{"$elemMatch": q}}
 	} else {
-		q_all = q
+		q_all = bson.M{fmt.Sprintf("addedField.%v", parentField): bson.M{"$elemMatch": q}} // the keys and values as an array
 	}
 	return q_all, pipeline, nil
 }
@@ -150,7 +150,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		//}
 		subField := strings.Replace(c.OriginalAttribute, "jsonpath:$VALUE", "", 1)
 		addedField := fmt.Sprintf("addedField.%v", parentString)
-		field = fmt.Sprintf("%v.v%v", addedField, subField)
+		field = fmt.Sprintf("v%v", subField)
 
 		addFieldStep := bson.M{"$addFields": bson.M{addedField: bson.M{"$objectToArray": "$" + parentString}}}
 
@@ -168,7 +168,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 
 		field0 := parentString
 		field1 := fmt.Sprintf("addedField.%v", field0)
-		field = fmt.Sprintf("%v.k", field1)
+		field = "k"
 
 		addFieldStep := bson.M{"$addFields": bson.M{field1: bson.M{"$objectToArray": "$" + field0}}}
 
diff --git a/docs/Mongo_Plugin.md b/docs/Mongo_Plugin.md
index a164fcc..26d2501 100644
--- a/docs/Mongo_Plugin.md
+++ b/docs/Mongo_Plugin.md
@@ -80,7 +80,7 @@ Mongo **Aggregate** query =
 ```
   [ 
      {"$addFields":{"addedField.raw.metadata.labels":{"$objectToArray":"$raw.metadata.labels"}}},
-     {"$match":{"addedField.raw.metadata.labels.v":{"$eq":"ABC"}}} 
+     {"$match":{"addedField.raw.metadata.labels":{"$elemMatch":{"v":{"$eq":"ABC"}}}}} 
    ]
 ```
 
-- 
2.43.0


From 58046c4972a3d69953457706b3926c3bf1183f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:41 +0000
Subject: [PATCH 35/47] fix: refuse KEY and VALUE below arrays in the parent in
 database queries

Only arrays at the end of the parent were noticed. For parents like
"jsonpath:$.containers[:].labels" the aggregation fails.
---
 MAPL_engine/mongo_plugin.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 6066a84..5ce6b50 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -3,10 +3,13 @@ package MAPL_engine
 import (
 	"fmt"
 	"go.mongodb.org/mongo-driver/bson"
+	"regexp"
 	"strconv"
 	"strings"
 )
 
+var arrayInParent = regexp.MustCompile(`\[(:|\*|[0-9]+)\]`)
+
 func (a *And) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
 	q_array := []bson.M{}
@@ -62,7 +65,7 @@ func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int)
 
 func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
 	insideAnyAll := inArrayCounter > 0
-	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
+	if arrayInParent.MatchString(a.ParentJsonpathAttributeOriginal) {
 		inArrayCounter += 1
 	}
 	if strings.Contains(a.ParentJsonpathAttributeOriginal, "..") {
@@ -92,7 +95,7 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
 
 	insideAnyAll := inArrayCounter > 0
-	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
+	if arrayInParent.MatchString(a.ParentJsonpathAttributeOriginal) {
 		inArrayCounter += 1
 	}
 
-- 
2.43.0


From 3e4c9effbb1b2237ac85fd080f6b71a723c069c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:11 +0000
Subject: [PATCH 36/47] fix: lists of parents in database queries

A comma-separated list in parentJsonpathAttribute was translated to a single
field with the whole list as its name. ANY now asks for one of the parents
and ALL for each of them.
---
 MAPL_engine/mongo_plugin.go | 49 ++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 5ce6b50..fe95ef3 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -71,7 +71,7 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.Contains(a.ParentJsonpathAttributeOriginal, "..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField, err := parentToField(a.ParentJsonpathAttributeOriginal, base, insideAnyAll)
+	parentFields, err := parentToFields(a.ParentJsonpathAttributeOriginal, base, insideAnyAll)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
@@ -85,8 +85,11 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	}
 
 	q_not := bson.M{"$nor": []bson.M{q}}
-	q_all_not := bson.M{parentField: bson.M{"$elemMatch": q_not}}
-	q_not_all_not := bson.M{"$nor": []bson.M{q_all_not}} // all == not(any(not(conditions))
+	q_all_not := []bson.M{}
+	for _, parentField := range parentFields {
+		q_all_not = append(q_all_not, bson.M{parentField: bson.M{"$elemMatch": q_not}})
+	}
+	q_not_all_not := bson.M{"$nor": q_all_not} // all == not(any(not(conditions))
 
 	return q_not_all_not, pipeline, nil
 
@@ -102,23 +105,29 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.Contains(a.ParentJsonpathAttributeOriginal, "..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField, err := parentToField(a.ParentJsonpathAttributeOriginal, base, insideAnyAll)
+	parentFields, err := parentToFields(a.ParentJsonpathAttributeOriginal, base, insideAnyAll)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
 
-	q, pipeline, err := a.Node.ToMongoQuery(base, parentField, inArrayCounter+1)
-	if err != nil {
-		return bson.M{}, []bson.M{}, err
+	q_array := []bson.M{}
+	pipeline := []bson.M{}
+	for _, parentField := range parentFields {
+		q, pipelineAppend, err := a.Node.ToMongoQuery(base, parentField, inArrayCounter+1)
+		if err != nil {
+			return bson.M{}, []bson.M{}, err
+		}
+		if len(pipelineAppend) == 0 {
+			q_array = append(q_array, bson.M{parentField: bson.M{"$elemMatch": q}})
+		} else {
+			q_array = append(q_array, bson.M{fmt.Sprintf("addedField.%v", parentField): bson.M{"$elemMatch": q}}) // the keys and values as an array
+		}
+		pipeline = append(pipeline, pipelineAppend...)
 	}
-
-	var q_all bson.M
-	if len(pipeline) == 0 {
-		q_all = bson.M{parentField: bson.M{"$elemMatch": q}}
-	} else {
-		q_all = bson.M{fmt.Sprintf("addedField.%v", parentField): bson.M{"$elemMatch": q}} // the keys and values as an array
+	if len(q_array) == 1 {
+		return q_array[0], pipeline, nil
 	}
-	return q_all, pipeline, nil
+	return bson.M{"$or": q_array}, pipeline, nil
 }
 
 func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
@@ -275,6 +284,18 @@ func nonStringListValues(c *Condition) []interface{} {
 	return vals
 }
 
+func parentToFields(parents string, base string, insideAnyAll bool) ([]string, error) {
+	fields := []string{}
+	for _, parent := range strings.Split(parents, ",") {
+		field, err := parentToField("jsonpath:"+strings.TrimPrefix(parent, "jsonpath:"), base, insideAnyAll)
+		if err != nil {
+			return []string{}, err
+		}
+		fields = append(fields, field)
+	}
+	return fields, nil
+}
+
 func parentToField(parent string, base string, insideAnyAll bool) (string, error) {
 	if insideAnyAll && !strings.HasPrefix(parent, "jsonpath:$RELATIVE") {
 		return "", fmt.Errorf("path from the root within ANY/ALL is not supported") // $elemMatch only sees the element
-- 
2.43.0


From 069636a24ef14f3009d77bafdc50e283dd219513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:45 +0000
Subject: [PATCH 37/47] fix: KEY and VALUE of nested parents in one database
 query

The field added for a parent such as "a" overwrote the one added before for
"a.b", whose conditions were then never met.
---
 MAPL_engine/mongo_plugin.go | 12 +++++++++---
 docs/Mongo_Plugin.md        |  4 ++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index fe95ef3..2fa641c 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -120,7 +120,7 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 		if len(pipelineAppend) == 0 {
 			q_array = append(q_array, bson.M{parentField: bson.M{"$elemMatch": q}})
 		} else {
-			q_array = append(q_array, bson.M{fmt.Sprintf("addedField.%v", parentField): bson.M{"$elemMatch": q}}) // the keys and values as an array
+			q_array = append(q_array, bson.M{addedFieldName(parentField): bson.M{"$elemMatch": q}}) // the keys and values as an array
 		}
 		pipeline = append(pipeline, pipelineAppend...)
 	}
@@ -161,7 +161,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		//	return bson.M{}, []bson.M{}, fmt.Errorf("json VALUE is not supported")
 		//}
 		subField := strings.Replace(c.OriginalAttribute, "jsonpath:$VALUE", "", 1)
-		addedField := fmt.Sprintf("addedField.%v", parentString)
+		addedField := addedFieldName(parentString)
 		field = fmt.Sprintf("v%v", subField)
 
 		addFieldStep := bson.M{"$addFields": bson.M{addedField: bson.M{"$objectToArray": "$" + parentString}}}
@@ -179,7 +179,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		}
 
 		field0 := parentString
-		field1 := fmt.Sprintf("addedField.%v", field0)
+		field1 := addedFieldName(field0)
 		field = "k"
 
 		addFieldStep := bson.M{"$addFields": bson.M{field1: bson.M{"$objectToArray": "$" + field0}}}
@@ -263,6 +263,12 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	return q, initialSteps, nil
 }
 
+// addedFieldName returns the field that holds the keys and values of the parent. It is not
+// nested like the parent, or adding the field of "a" would overwrite that of "a.b".
+func addedFieldName(parent string) string {
+	return "addedField." + strings.Replace(parent, ".", "/", -1)
+}
+
 // nonStringListValues returns the numbers and booleans in the list of an IN, IS or NIN
 // condition. The regex that such a condition is converted to only matches strings.
 func nonStringListValues(c *Condition) []interface{} {
diff --git a/docs/Mongo_Plugin.md b/docs/Mongo_Plugin.md
index 26d2501..da706d8 100644
--- a/docs/Mongo_Plugin.md
+++ b/docs/Mongo_Plugin.md
@@ -79,8 +79,8 @@ Mongo query = ```{"$nor":[{"raw.spec.containers":{"$elemMatch":{"$nor":[{"volume
 Mongo **Aggregate** query = 
 ```
   [ 
-     {"$addFields":{"addedField.raw.metadata.labels":{"$objectToArray":"$raw.metadata.labels"}}},
-     {"$match":{"addedField.raw.metadata.labels":{"$elemMatch":{"v":{"$eq":"ABC"}}}}} 
+     {"$addFields":{"addedField.raw/metadata/labels":{"$objectToArray":"$raw.metadata.labels"}}},
+     {"$match":{"addedField.raw/metadata/labels":{"$elemMatch":{"v":{"$eq":"ABC"}}}}} 
    ]
 ```
 
-- 
2.43.0


From 943a22fc55e6aca6a96728262e0cfb2f35847c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:50:24 +0000
Subject: [PATCH 38/47] fix: lists in lists of a decoded document at any depth

---
 MAPL_engine/check.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index d185a8d..57b0aec 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -987,6 +987,9 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 				return tempArray
 			}
 		}
+		if len(tempArrayOut) > 0 {
+			return ArrangeArrayInterface(tempArrayOut) // there may be more than two levels
+		}
 		return tempArrayOut
 	}
 }
-- 
2.43.0


From fa2a5769e959dccb987f13ad09f8ea308b711c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:41 +0000
Subject: [PATCH 39/47] fix: read one message with labels

A message with labels was refused because of the way the number of its
fields was counted. Unknown fields are still refused.
---
 MAPL_engine/messages_load.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/MAPL_engine/messages_load.go b/MAPL_engine/messages_load.go
index b7045d9..fe729d7 100644
--- a/MAPL_engine/messages_load.go
+++ b/MAPL_engine/messages_load.go
@@ -2,7 +2,6 @@ package MAPL_engine
 
 import (
 	"encoding/json"
-	"fmt"
 	"gopkg.in/yaml.v2"
 	"io/ioutil"
 	"log"
@@ -15,20 +14,12 @@ import (
 func YamlReadMessageAttributes(yamlString string) (MessageAttributes, error) {
 
 	var messageAttributes MessageAttributes
-	err := yaml.Unmarshal([]byte(yamlString), &messageAttributes)
+	err := yaml.UnmarshalStrict([]byte(yamlString), &messageAttributes) // unknown fields are not allowed
 	if err != nil {
 		log.Printf("error: %v", err)
 		return MessageAttributes{}, err
 	}
 
-	flag, outputString, err := IsNumberOfFieldsEqual(messageAttributes, yamlString)
-	if err != nil {
-		return MessageAttributes{}, err
-	}
-	if flag == false {
-		return MessageAttributes{}, fmt.Errorf("number of fields in rules does not match number of fields in yaml file:\n" + outputString)
-	}
-
 	AddResourceType(&messageAttributes)
 
 	return messageAttributes, nil
-- 
2.43.0


From 7f00c6c145fa1e27c5329d2f8c66b604a3224c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:27 +0000
Subject: [PATCH 40/47] fix: let wildcards stand for line breaks

---
 MAPL_engine/string_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 7c76df9..30a7407 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -49,7 +49,7 @@ func convertWildcardsToRegex(str string) string {
 	str = regexp.QuoteMeta(str)
 	str = strings.Replace(str, "\\*", ".*", -1)
 	str = strings.Replace(str, "\\?", ".", -1)
-	return "^" + str + "$" // force full string
+	return "(?s)^" + str + "$" // force full string, wildcards stand for line breaks too
 }
 
 // convertStringToRegex function converts one string to regex. Remove spaces, handle special characters and wildcards.
-- 
2.43.0


From 5e43a1ab252a9e4689c1f7b0dcfed4c29b7e77dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:59:20 +0000
Subject: [PATCH 41/47] fix: read the document of a message from yaml

---
 MAPL_engine/messages_load.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/MAPL_engine/messages_load.go b/MAPL_engine/messages_load.go
index fe729d7..e63fe53 100644
--- a/MAPL_engine/messages_load.go
+++ b/MAPL_engine/messages_load.go
@@ -21,6 +21,7 @@ func YamlReadMessageAttributes(yamlString string) (MessageAttributes, error) {
 	}
 
 	AddResourceType(&messageAttributes)
+	convertRawInterfaceOfMessage(&messageAttributes)
 
 	return messageAttributes, nil
 }
@@ -42,6 +43,9 @@ func YamlReadMessagesFromString(yamlString string) (Messages, error) {
 	}
 	AddNetIpToMessages(&messages)
 	parseLabelsJsonOfMessages(&messages)
+	for i, _ := range messages.Messages {
+		convertRawInterfaceOfMessage(&messages.Messages[i])
+	}
 
 	return messages, nil
 }
@@ -161,3 +165,34 @@ func addQuotesToJsonString(json_string string) (out_string string) {
 	out_string = strings.Replace(out_string, "}", "\"}", -1)
 	return out_string
 }
+
+// convertRawInterfaceOfMessage converts the document of a message that was read from yaml to the types of a decoded json
+func convertRawInterfaceOfMessage(message *MessageAttributes) {
+	if message.RequestRawInterface != nil {
+		val := convertYamlInterface(*message.RequestRawInterface)
+		message.RequestRawInterface = &val
+	}
+}
+
+func convertYamlInterface(val interface{}) interface{} {
+	switch v := val.(type) {
+	case map[interface{}]interface{}:
+		out := mapInterfaceToMapString(v)
+		for key := range out {
+			out[key] = convertYamlInterface(out[key])
+		}
+		return out
+	case []interface{}:
+		for i := range v {
+			v[i] = convertYamlInterface(v[i])
+		}
+		return v
+	case int:
+		return float64(v)
+	case int64:
+		return float64(v)
+	case uint64:
+		return float64(v)
+	}
+	return val
+}
-- 
2.43.0


From 5b64dc269fb49f5875c5b84054616ab30fa06bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:07:14 +0000
Subject: [PATCH 42/47] fix: allow spaces in lists of subnets

A list such as "10.0.0.1, 10.0.0.2" was refused for senders and receivers
of type subnet, while spaces around the elements of lists of names are
ignored.
---
 MAPL_engine/string_utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 30a7407..7c0779d 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -86,6 +86,7 @@ func ConvertStringToExpandedSenderReceiver(str_in string, type_in string) ([]Exp
 		//e.IsIP,e.IsCIDR,e.IP,e.CIDR=isIpCIDR(str)
 		e.Type = type_in
 		if type_in == "subnet" {
+			str = strings.TrimSpace(str) // as in lists of names
 			if str == "*" {
 				str = "0.0.0.0/0"
 			}
-- 
2.43.0


From 9d974795e57e726ea018f12d258a2cbe9cabfec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:02:19 +0000
Subject: [PATCH 43/47] fix: find keys that are written with escapes in raw
 json documents

The json path library fails on keys with escapes such as \/ and drops text
when a key has more than one escape. The conditions on the raw document then
differ from the conditions on the decoded document. The strings are written
without escapes before the lookup when some key of the document has one.
---
 MAPL_engine/check.go | 74 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 68 insertions(+), 6 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 57b0aec..eec1ab6 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -2,6 +2,7 @@
 package MAPL_engine
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -411,9 +412,9 @@ func getExtraDataFromByteArray(returnValueJsonpathMap map[string]string, returnV
 			if message.RequestJsonRawRelative == nil {
 				continue
 			}
-			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRawRelative, queryString)
+			extraDataBytes, _ = getFromJsonRaw(*message.RequestJsonRawRelative, queryString)
 		} else {
-			extraDataBytes, _ = jsonslice.Get(*message.RequestJsonRaw, queryString)
+			extraDataBytes, _ = getFromJsonRaw(*message.RequestJsonRaw, queryString)
 		}
 
 		var tempInterface interface{}
@@ -539,10 +540,10 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 			valueToCompareBytes, err = getKeyValue(*message.RequestJsonRawRelative, c.AttributeJsonpathQuery)
 			if err == nil && strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE") && c.AttributeJsonpathQuery != "$VALUE" {
 				tempQuery := strings.Replace(c.AttributeJsonpathQuery, "$VALUE", "$", 1)
-				valueToCompareBytes, err = jsonslice.Get(valueToCompareBytes, tempQuery)
+				valueToCompareBytes, err = getFromJsonRaw(valueToCompareBytes, tempQuery)
 			}
 		} else {
-			valueToCompareBytes, err = jsonslice.Get(*message.RequestJsonRawRelative, c.AttributeJsonpathQuery)
+			valueToCompareBytes, err = getFromJsonRaw(*message.RequestJsonRawRelative, c.AttributeJsonpathQuery)
 		}
 	} else {
 		if (*message).RequestJsonRaw == nil {
@@ -551,7 +552,7 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		if len(*message.RequestJsonRaw) == 0 {
 			return false // By definition. This will create a "change" if something is true in the a new deployment
 		}
-		valueToCompareBytes, err = jsonslice.Get(*message.RequestJsonRaw, c.AttributeJsonpathQuery)
+		valueToCompareBytes, err = getFromJsonRaw(*message.RequestJsonRaw, c.AttributeJsonpathQuery)
 	}
 
 	if err != nil {
@@ -762,6 +763,67 @@ func whatToReturnInCaseOfEmptyResult(c Condition) bool {
 	return false // default test result is false on an empty jsonpath result
 }
 
+func getFromJsonRaw(jsonRaw []byte, query string) ([]byte, error) {
+	if hasEscapedKeys(jsonRaw) {
+		// jsonslice fails on some of the escapes that are valid in keys (such as \/) and does not decode more than one escape in a key
+		jsonRaw = removeEscapes(jsonRaw)
+	}
+	return jsonslice.Get(jsonRaw, query)
+}
+
+func endOfString(jsonRaw []byte, i int) int {
+	for i < len(jsonRaw) && jsonRaw[i] != '"' {
+		if jsonRaw[i] == '\\' {
+			i++
+		}
+		i++
+	}
+	return i + 1
+}
+
+func hasEscapedKeys(jsonRaw []byte) bool {
+	for {
+		i := bytes.IndexByte(jsonRaw, '\\') // only possible inside a string
+		if i < 0 {
+			return false
+		}
+		end := endOfString(jsonRaw, i)
+		if end > len(jsonRaw) {
+			return false // not a valid json
+		}
+		jsonRaw = bytes.TrimLeft(jsonRaw[end:], " \t\r\n")
+		if len(jsonRaw) > 0 && jsonRaw[0] == ':' {
+			return true
+		}
+	}
+}
+
+// removeEscapes writes the strings of the json text without the escapes that are not required
+func removeEscapes(jsonRaw []byte) []byte {
+	out := bytes.Buffer{}
+	encoder := json.NewEncoder(&out)
+	encoder.SetEscapeHTML(false)
+	for i := 0; i < len(jsonRaw); {
+		end := i + 1
+		if jsonRaw[i] == '"' {
+			end = endOfString(jsonRaw, end)
+		}
+		if end > len(jsonRaw) {
+			return jsonRaw // not a valid json
+		}
+		part := jsonRaw[i:end]
+		i = end
+		var str string
+		if bytes.IndexByte(part, '\\') < 0 || json.Unmarshal(part, &str) != nil {
+			out.Write(part)
+			continue
+		}
+		encoder.Encode(str)
+		out.Truncate(out.Len() - 1) // the encoder adds a new line
+	}
+	return out.Bytes()
+}
+
 func getKeyValue(jsonRaw []byte, attribute string) ([]byte, error) {
 	//used only with byte array raw data. for interface raw data we use another method.
 	valueToCompareBytes := []byte{}
@@ -1013,7 +1075,7 @@ func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error)
 		if jsonRaw == nil {
 			return [][]byte{}, errors.New("no json data")
 		}
-		arrayData, err := jsonslice.Get(*jsonRaw, parentJsonpath)
+		arrayData, err := getFromJsonRaw(*jsonRaw, parentJsonpath)
 		if err != nil {
 			return [][]byte{}, err
 		}
-- 
2.43.0


From a34d8ac86233cec6af72c971cc6920ffc5a27674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:52:02 +0000
Subject: [PATCH 44/47] fix: do not take strings such as nan and inf for
 numbers in database queries

---
 MAPL_engine/mongo_plugin.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 2fa641c..d057b73 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -3,6 +3,7 @@ package MAPL_engine
 import (
 	"fmt"
 	"go.mongodb.org/mongo-driver/bson"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -321,7 +322,7 @@ func parentToField(parent string, base string, insideAnyAll bool) (string, error
 }
 
 func isNumber(str string) (bool, float64) {
-	if s, err := strconv.ParseFloat(str, 64); err == nil {
+	if s, err := strconv.ParseFloat(str, 64); err == nil && !math.IsNaN(s) && !math.IsInf(s, 0) {
 		return true, s
 	}
 	return false, -1.0
-- 
2.43.0


From abaf6f7f9cb4e36dc876d4d1ff5442ecc3ffb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:52:02 +0000
Subject: [PATCH 45/47] fix: display the name of a resource that has no type

---
 MAPL_engine/definitions_rule.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 8979309..f63a996 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -262,6 +262,8 @@ func (r *Resource) String() string {
 	resourceString := "default:default"
 	if r.ResourceType != "" {
 		resourceString = fmt.Sprintf("%v:%v", r.ResourceType, r.ResourceName)
+	} else if r.ResourceName != "" {
+		resourceString = fmt.Sprintf("default:%v", r.ResourceName)
 	}
 	return resourceString
 }
-- 
2.43.0


From e6d3feede62866eabdf30fd147b95850cb1a1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:57:04 +0000
Subject: [PATCH 46/47] fix: reject conditions on sender and receiver
 attributes that do not exist

---
 MAPL_engine/validate_conditions.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 61d9df8..f1279cd 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -212,15 +212,26 @@ func validateConditionOnLabels(condition *Condition) (bool, error) {
 	return true, nil
 }
 
+var supportedSenderReceiverAttributes = []string{"namespace", "cluster"}
+
 func validateConditionOnSenderReceiverAttributes(condition *Condition) (bool, error) {
 
 	if strings.HasPrefix(condition.Attribute, "$sender.") { // test if ATTRIBUTE is of type sender object
+		if !slice.ContainsString(supportedSenderReceiverAttributes, strings.TrimPrefix(condition.Attribute, "$sender.")) {
+			return false, fmt.Errorf("invalid attribute in condition [%v]", condition.Attribute)
+		}
+		if strings.HasPrefix(condition.Value, "$receiver.") && !slice.ContainsString(supportedSenderReceiverAttributes, strings.TrimPrefix(condition.Value, "$receiver.")) {
+			return false, fmt.Errorf("invalid receiver attribute in condition [%v]", condition.Value)
+		}
 		if slice.ContainsString(numberMethodSlice, condition.Method) {
 			return false, fmt.Errorf("numerical method with $sender")
 		}
 	}
 
 	if strings.HasPrefix(condition.Attribute, "$receiver.") { // test if ATTRIBUTE is of type receiver object
+		if !slice.ContainsString(supportedSenderReceiverAttributes, strings.TrimPrefix(condition.Attribute, "$receiver.")) {
+			return false, fmt.Errorf("invalid attribute in condition [%v]", condition.Attribute)
+		}
 		if slice.ContainsString(numberMethodSlice, condition.Method) {
 			return false, fmt.Errorf("numerical method with $receiver")
 		}
-- 
2.43.0


From 2fb7a60f45f468b1315e0042cd8d324f02fe8854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:02:56 +0000
Subject: [PATCH 47/47] fix: compare values of documents with texts that look
 like receiver labels

---
 MAPL_engine/rules_load.go          | 4 ++--
 MAPL_engine/validate_conditions.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index 3c47be5..87d9805 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -409,7 +409,7 @@ func handleSenderReceiverLabelsAttribute(condition *Condition) {
 		//condition.OriginalAttribute = originalAttribute // used in hash
 	}
 
-	if strings.HasPrefix(condition.Value, "receiverLabel[") { // test if VALUE is of type receiverLabel (used to compare attribute senderLabel[key1] to value receiverLabel[key2])
+	if condition.AttributeIsSenderLabel && strings.HasPrefix(condition.Value, "receiverLabel[") { // test if VALUE is of type receiverLabel (used to compare attribute senderLabel[key1] to value receiverLabel[key2])
 		condition.ValueIsReceiverLabel = true
 		i1 := strings.Index(condition.Value, "[") + 1
 		i2 := strings.Index(condition.Value, "]")
@@ -439,7 +439,7 @@ func handleSenderReceiverAttributes(condition *Condition) {
 		//condition.OriginalAttribute = originalAttribute // used in hash
 	}
 
-	if strings.HasPrefix(condition.Value, "$receiver.") { // test if VALUE is of type receiver object (used to compare attribute of sender object to value of receiver object)
+	if condition.AttributeIsSenderObject && strings.HasPrefix(condition.Value, "$receiver.") { // test if VALUE is of type receiver object (used to compare attribute of sender object to value of receiver object)
 		condition.ValueIsReceiverObject = true
 		i1 := strings.Index(condition.Value, ".") + 1
 		condition.ValueReceiverObject = condition.Value[i1:]
diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index f1279cd..c033c25 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -203,7 +203,7 @@ func validateConditionOnLabels(condition *Condition) (bool, error) {
 		}
 	}
 
-	if strings.Index(condition.Value, "receiverLabel[") == 0 { // test if VALUE is of type receiverLabel (used to compare attribute senderLabel[key1] to value receiverLabel[key2])
+	if strings.Index(condition.Attribute, "senderLabel[") == 0 && strings.Index(condition.Value, "receiverLabel[") == 0 { // test if VALUE is of type receiverLabel (used to compare attribute senderLabel[key1] to value receiverLabel[key2])
 		i2 := strings.Index(condition.Value, "]")
 		if i2 < len(condition.Value)-1 {
 			return false, fmt.Errorf("value receiverLabel has a wrong format")
-- 
2.43.0

