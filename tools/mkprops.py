#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept as a script so that the long lines stay readable.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": ["MAPL_engine/" + f for f in files],
         "mechanism": [{"name": n, "where": "MAPL_engine/" + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "MAPL_engine/" + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "The decision for a message is the strictest decision of the applying rules",
 "For every message and every list of rules, the decision is the strictest decision (block over alert over allow) among the rules that apply to the message, and it is the default decision exactly when no rule applies. The per-rule results, the indices of applied rules, the index and description of the relevant rule (the first rule that has the winning decision), the decision text and the per-rule return data agree with what each rule gives when it is checked alone. Permuting the rules never changes the decision, and adding a rule never weakens it.",
 ["inputs", "configurations"], "all lists of valid rules (any length, including empty) and all messages",
 "Tests check a few dozen fixed rule files against fixed messages, most of them with a single rule; none compares all seven outputs with each other or permutes the rules.",
 ["check.go", "definitions_rule.go"],
 [("precedence loop over per-rule results", "check.go:Check"), ("decision of one rule", "check.go:CheckOneRule")],
 ["return values of Check", "return values of CheckOneRule and Rule.Check"])

prop("C02", "Sender and receiver patterns match exactly the named workloads, hosts and IPs",
 "A rule applies to a message only if its sender list and its receiver list each contain an element that matches: for workload names (and hostnames on the receiver side) a full-string match in which '*' stands for any run of characters, '?' for exactly one character and every other character, dots included, for itself; for subnets an equal IP address or a CIDR block that contains the address. Elements are separated by commas, with surrounding spaces ignored, the '*' subnet stands for every IPv4 address, and a rule whose subnet list contains something that is neither an IP nor a CIDR block never applies and is rejected by preparation. If both lists match and nothing else in the rule restricts it, the rule does apply.",
 ["inputs"], "all sender/receiver name lists and types, and all message identities and addresses",
 "Tests cover a handful of name patterns and CIDR blocks; pattern matching quantifies over all strings and all addresses.",
 ["check.go", "string_utils.go", "tools.go"],
 [("pattern to regex conversion", "string_utils.go:ConvertStringToExpandedSenderReceiver"), ("sender test", "check.go:TestSender"), ("receiver test", "check.go:TestReceiver"), ("IP or CIDR recognition", "tools.go:isIpCIDR")],
 ["decision of Check and CheckOneRule", "error of Rule.SetPredefinedStringsAndLists"])

prop("C03", "Protocol, resource and operation of a rule restrict it as documented",
 "A rule with protocol '*' applies to every protocol and resource; with protocol 'tcp' it applies when the destination port matches its resource name; with any other protocol it applies when the message protocol is the same up to letter case, the resource type is '*' or equal to the message's, and the request path matches the resource name list. The operation matches when it is '*', when it is 'read' (GET, HEAD, OPTIONS, TRACE, CONSUME, READ) or 'write' (POST, PUT, DELETE, PRODUCE) and the method is in that group, and otherwise when the method matches one element of the operation list. Names and operations match the full string with '*' and '?' as the only wildcards, and lists are separated by commas with surrounding spaces ignored.",
 ["inputs"], "all protocols, resource types, resource name lists, operation lists and message paths, ports and methods",
 "Tests use a few dozen combinations; the rule fields and message fields are free strings.",
 ["check.go", "string_utils.go", "rules_load.go"],
 [("resource comparison", "check.go:CheckOneRule"), ("operation groups", "string_utils.go:ConvertOperationStringToRegex"), ("wildcard lists", "string_utils.go:ConvertStringToRegex")],
 ["decision of Check and CheckOneRule"])

prop("C04", "AND, OR and NOT combine conditions by boolean logic at any nesting",
 "The truth of a conditions tree equals the boolean combination (AND: every child, OR: at least one child, NOT: the negation) of the truth of its individual conditions evaluated alone on the same message, at every depth, width and order of children. A rule with a conditions tree applies exactly when its other fields match and the tree is true, and a rule without conditions applies whenever its other fields match. Replacing a subtree by a boolean equivalent (de Morgan, double negation, reordering, regrouping or duplicating children) never changes the outcome.",
 ["programs", "inputs"], "all condition trees over all supported conditions, and all messages",
 "Tests hold a few fixed trees of depth two or three; the set of trees is unbounded.",
 ["conditions_tree.go", "check.go", "rules_load.go"],
 [("AND/OR/NOT evaluation", "conditions_tree.go:Eval"), ("tree loading", "conditions_tree.go:InterpretNode"), ("conditions gate of a rule", "check.go:CheckOneRule")],
 ["decision of Check", "result of TestConditions"])

prop("C05", "ANY is 'some element satisfies', ALL is 'every element satisfies'",
 "ANY over a parent path is true exactly when at least one selected element satisfies the inner condition, and ALL exactly when every selected element does, so ALL is true and ANY is false when nothing is selected. The selected elements are the array elements at the path (through nested arrays, deep scans and several comma separated paths), or for a plain path to an object its entries, each seen through its key and value; conditions relative to the element see that element only and conditions on absolute paths still see the whole document. Quantifiers nest: an inner quantifier with a relative path ranges over the current element, and ALL p equals NOT ANY NOT p.",
 ["programs", "inputs"], "all quantifier trees (nested, several parents, deep scan, object entries) and all JSON documents",
 "Tests use some thirty fixed trees on three or four Kubernetes documents; quantifiers range over arbitrary trees and documents including empty, ragged and missing parts.",
 ["conditions_tree.go", "check.go"],
 [("ANY evaluation", "conditions_tree.go:evalAnyRawInterface, evalAnyRawBytes"), ("ALL evaluation", "conditions_tree.go:evalAllRawInterface, evalAllRawBytes"), ("element selection", "check.go:getArrayOfInterfaces, getArrayOfJsons"), ("key/value access", "check.go:getKeyValue, getKeyValueFromInterface")],
 ["decision of Check", "result of TestConditions"],
 state=[("relative element of the message", "the element the innermost quantifier is looking at", "definitions_message.go:RequestRawInterfaceRelative, RequestJsonRawRelative")])

prop("C06", "A JSON path condition compares the addressed value as its method says",
 "For a condition on a JSON path, EX/NEX tell whether the path leads to a non-empty value; EQ, NEQ (also spelled NE), GT, GE, LT and LE compare numerically, with percent, decimal and binary unit suffixes applied on both sides, when both sides are numbers; EQ/NEQ otherwise compare the strings exactly; RE/NRE search the regular expression in the value; IN/NIN test membership in the bracketed list. When the path leads nowhere, to an empty string or to an empty array every method except NEX is false. Upper and lower case method names mean the same.",
 ["inputs"], "all paths, methods, condition values and JSON documents in the supported path syntax",
 "Tests pick about a hundred (document, condition) pairs; the claim is over all values, numbers, units and missing parts.",
 ["check.go", "string_utils.go", "rules_load.go"],
 [("condition on raw JSON", "check.go:testJsonPathCondition"), ("condition on a decoded document", "check.go:testJsonPathConditionOnInterface"), ("units", "string_utils.go:convertStringWithUnits"), ("value conversion", "rules_load.go:ConvertConditionStringToIntFloatRegex")],
 ["decision of Check", "result of TestConditions"])

prop("C07", "Conditions on labels, namespaces and request attributes compare what they name",
 "Conditions on payload size, hours from midnight and encryption version compare numerically; conditions on sender or receiver labels, namespace, cluster, domain, user agent and encryption type compare the named attribute of the message with EQ/NEQ by full match where '*' and '?' are wildcards, with RE/NRE by regular expression search, with IN/NIN by list membership and with EX/NEX by presence. A sender label or attribute can be compared with EQ/NEQ to the receiver's label or attribute, in which case the two values are compared literally. A condition on a label that the message does not have is false for every method except NEX.",
 ["inputs"], "all attribute, method and value combinations and all message attributes",
 "Tests exercise one or two values per attribute; several method and attribute pairs are never exercised.",
 ["check.go", "rules_load.go", "string_utils.go"],
 [("attribute dispatch", "check.go:testOneCondition"), ("label conditions", "check.go:testSenderLabelCondition, testReceiverLabelCondition"), ("sender/receiver attribute conditions", "check.go:testSenderAttributeCondition, testReceiverAttributeCondition"), ("value conversion", "rules_load.go:ConvertConditionStringToIntFloatRegex")],
 ["decision of Check", "result of TestConditions"])

prop("C08", "Raw JSON bytes and the decoded document give the same decision and data",
 "For every rule and every JSON document, checking a message that carries the document as raw bytes and a message that carries the same document decoded gives the same decision, the same per-rule results and the same returned values (those from the entries of an object in any order), whatever the whitespace, key order or escapes in strings and keys of the raw text. A message that carries both gives that same answer as well.",
 ["inputs", "programs"], "all rules and all JSON documents and textual forms of a document",
 "Tests run some rule files through both forms on a few well formed documents; the two forms are two separate implementations with separate path libraries.",
 ["check.go", "conditions_tree.go", "string_utils.go"],
 [("evaluation on raw bytes", "check.go:testJsonPathCondition, getArrayOfJsons"), ("evaluation on decoded documents", "check.go:testJsonPathConditionOnInterface, getArrayOfInterfaces")],
 ["decision and return data of Check", "result of TestConditions"])

prop("C09", "Returned values are exactly those of the elements that satisfy the rule",
 "When a rule applies, an ANY with requested return values yields one entry per satisfying element, in document order for arrays, and each entry holds for every requested name the value found at the requested path inside that element (a name whose path leads nowhere yields no value). A single condition yields its requested values when true; AND passes on the data of its last data-bearing child, OR concatenates the data of its true children in order, NOT and ALL and the inside of an ANY yield nothing, and a conditions tree that is false yields nothing. Asking for return values never changes the decision.",
 ["programs", "inputs"], "all condition trees with return value requests and all JSON documents",
 "Tests check the returned data of about ten fixed rules.",
 ["check.go", "conditions_tree.go"],
 [("collection of return values", "check.go:getExtraDataFromInterface, getExtraDataFromByteArray"), ("combination in the tree", "conditions_tree.go:Eval")],
 ["return data of Check, CheckOneRule and TestConditions"])

prop("C10", "A rule survives being stored and loaded again",
 "Loading a rule from YAML or JSON, writing it as JSON or BSON (before or after it was used) and loading it again gives a rule with the same hash, the same database query, the same decision and return values on every message, and the same written form. The equivalent ways of writing the same rule (YAML or JSON, conditions with or without the wrapping keyword, upper or lower case field names of a condition, a single condition in a list or directly) load to rules with the same hash and decisions.",
 ["programs", "inputs"], "all rules, including conditions with quotes, backslashes and other special characters, and all messages",
 "Tests round trip a few fixed rule files; the written form depends on every string in the rule.",
 ["conditions_tree.go", "definitions_rule.go", "rules_load.go"],
 [("JSON of conditions", "definitions_rule.go:MarshalJSON"), ("JSON of quantifiers", "conditions_tree.go:MarshalJSON"), ("BSON", "conditions_tree.go:MarshalBSON, UnmarshalBSON"), ("loading", "conditions_tree.go:ParseConditionsTree")],
 ["json.Marshal/Unmarshal and bson.Marshal/Unmarshal of Rule and ConditionsTree", "YamlReadRulesFromString", "RuleMD5Hash"])

prop("C11", "Rule hashes ignore presentation and notice every semantic change",
 "Two rules that differ only in rule id, metadata, the order of the children of AND or OR, the letter case of decision, protocol and sender or receiver type, or the wrapping of a single child in AND or OR have the same hash, and preparing or using a rule does not change its hash. Two rules that differ in sender, receiver, protocol, resource, operation, decision or in the structure or content of any condition have different hashes. The hash of the conditions depends on the conditions only, and two rules count as having equal conditions exactly when those hashes are equal; writing the keywords of a rule in lower case changes neither its names nor its conditions.",
 ["programs"], "all pairs of a rule and a semantic or presentational edit of it",
 "Tests compare the hashes of a few fixed rule pairs.",
 ["rules_load.go", "conditions_tree.go", "definitions_rule.go"],
 [("canonical string", "rules_load.go:RuleToString"), ("sorting of children", "conditions_tree.go:AndOrString"), ("hash", "rules_load.go:RuleMD5Hash, RuleMD5HashConditions")],
 ["RuleMD5Hash, RuleMD5HashConditions, Rule.ConditionsEqual, RuleToString"])

prop("C12", "Predefined strings and lists mean the same as writing their contents in place",
 "A rule whose sender name, receiver name or condition values refer to predefined strings or lists by '#name' gives the same database query and, on every message, the same decision and return values as the rule with the contents written in place (lists joined by commas, or by '|' for regular expression methods, with references inside lists resolved to strings), where a list takes precedence over a string of the same name. A reference to a name that is not defined makes preparation fail, and so does loading a list that refers to an undefined string or a file that cannot be read. Preparing the rule again with other definitions takes full effect, and the rule's own hash and written form keep the reference.",
 ["programs", "configurations"], "all rules with references, all definitions and all messages",
 "Tests use one definitions file.",
 ["rules_load.go", "predefined_lists_load.go"],
 [("replacement in conditions", "rules_load.go:ReplaceStringsAndListsInCondition"), ("replacement in names", "rules_load.go:ReplaceStringsAndListsInOneRule"), ("resolution of references in lists", "predefined_lists_load.go:validatePredefinedString"), ("preparation", "rules_load.go:SetPredefinedStringsAndLists")],
 ["decision of Check", "error of Rule.SetPredefinedStringsAndLists, YamlReadRulesFromStringWithPredefinedStrings, YamlReadStringListsFromString"])

prop("C13", "Checking is repeatable: no history or concurrency changes an outcome",
 "The outcome of checking a message against rules depends only on that message and those rules: repeating a check, checking other messages or rules in between, preparing or validating the rule, computing its hash or its database query, or checking in any order never changes the outcome of a later check. Checking does not modify the message or its document, nor the rule's written form and hash. Goroutines that check separate messages against the same prepared rules get the same outcomes as sequential checks, without data races.",
 ["histories", "schedules"], "all sequences of operations on a set of rules and messages, and all interleavings of concurrent checks",
 "Tests call Check once per fixture, in one goroutine; they never compare outcomes across histories or schedules.",
 ["check.go", "conditions_tree.go", "rules_load.go"],
 [("lazy preparation", "check.go:CheckOneRule, TestConditions"), ("relative element saved and restored", "conditions_tree.go:evalAnyRawInterface, evalAllRawInterface"), ("preparation on a copy", "rules_load.go:SetPredefinedStringsAndLists")],
 ["return values of Check", "the message and rule values after the call", "race detector"],
 state=[("prepared copy of a rule", "what evaluation uses; created on first use", "definitions_rule.go:preparedRule, ruleAlreadyPrepared"), ("relative element of the message", "set while a quantifier runs, restored after", "definitions_message.go")])

prop("C14", "Validation accepts every well formed rule and rejects every malformed one",
 "Loading and validation accept every rule built from the supported attributes, methods, paths and node types. They reject with an error every rule that has in any condition at any depth an unknown attribute or method, an ordering comparison with a non-numeric value or on a label or sender/receiver attribute, an invalid regular expression, an empty membership list, a label name not enclosed in its brackets, a path that does not start at the root or at the element or goes below a key, an array wildcard or empty brackets outside a quantifier's parent path, or a malformed node (an unknown keyword, several keywords in one node, a list without a keyword, a quantifier without parent path or without condition, a return value path that is not relative). A rule that validation accepts can be prepared and checked.",
 ["programs"], "all rules with one injected defect at any position, and all valid rules",
 "Tests list about forty invalid rule files, nearly all with the defect in a top level condition.",
 ["validate_conditions.go", "conditions_tree.go", "rules_load.go"],
 [("condition validation", "validate_conditions.go:ValidateOneCondition"), ("node validation", "conditions_tree.go:InterpretNode, getAnyAllNode, getNotNode"), ("rule validation", "rules_load.go:ValidateRule")],
 ["error of YamlReadRulesFromString, json.Unmarshal, ValidateRule, Rule.SetPredefinedStringsAndLists"])

prop("C15", "No rule document and no message can crash or hang the engine",
 "For every YAML or JSON text offered as rules, definitions or messages, loading returns either a value or an error, and for every rule that loads and every message, with or without a document, validation, preparation, hashing, writing, database translation and checking return normally. A rule that cannot be prepared never applies, even if it was prepared successfully before. No call panics or fails to terminate.",
 ["inputs", "programs"], "all rule, list and message texts, all decoded rule structures and all messages",
 "Tests only contain documents that load cleanly or are rejected cleanly.",
 ["check.go", "conditions_tree.go", "definitions_rule.go", "rules_load.go", "validate_conditions.go", "messages_load.go", "predefined_lists_load.go", "mongo_plugin.go"],
 [("tree loading", "conditions_tree.go:InterpretNode"), ("lazy preparation", "check.go:CheckOneRule"), ("document access", "check.go:testJsonPathCondition, getArrayOfJsons, getArrayOfInterfaces")],
 ["panic, process exit or CPU time of any exported call"])

prop("C16", "The database query selects exactly the documents the rule's conditions accept",
 "For every rule whose conditions the database translation accepts and every stored document within the documented limitations, the document is selected by the query under MongoDB's query semantics exactly when the rule's conditions are true for that document. The field given for the raw document is honoured at any nesting, and conditions the translation does not support (non-path attributes, deep scans, keys or values inside arrays or in ALL) are refused with an error rather than translated into a query.",
 ["programs", "inputs"], "all translatable condition trees and all documents of the documented kind",
 "The plugin tests need a running MongoDB server, use one or two documents per rule and do not run here.",
 ["mongo_plugin.go", "rule_mongo_plugin.go"],
 [("translation of conditions and quantifiers", "mongo_plugin.go:ToMongoQuery"), ("assembly of the query", "rule_mongo_plugin.go:ToMongoQuery")],
 ["Rule.ToMongoQuery result interpreted by a query evaluator", "result of TestConditions"])

prop("C17", "Coverage reports agree with checking each message against each rule",
 "For every set of messages with distinct ids and rules with distinct ids, the report says for each message that it is covered exactly when some rule applies to it, with the same overall decision as checking it, and lists the ids and decisions of exactly the applying rules in rule order. It lists for each rule the ids of exactly the messages it applies to in message order, and every rule and every message has an entry.",
 ["inputs"], "all sets of messages and rules",
 "The only coverage test uses one fixed set.",
 ["coverage.go", "check.go"],
 [("coverage", "coverage.go:Coverage"), ("decisions that are not default", "coverage.go:findNonDefaultDecisions")],
 ["return values of Coverage"])

prop("C18", "Messages are loaded faithfully from YAML",
 "For every list of messages, loading the YAML text gives the same messages in the same order with every attribute as written: addresses parsed to the IP they denote, labels as the key/value pairs written, a document as the values written, the resource type implied by the protocol (path for HTTP, port for TCP, none otherwise) and the seconds, minutes and hours since midnight of the UTC request time. A request time in a list that is not a valid timestamp makes loading fail, and so does a file that cannot be read; a single message can also be read alone, with its attributes as written and the implied resource type, and an attribute that does not exist is rejected there. Checking the loaded messages gives the same decisions as checking messages built directly from the same attributes, the JSON form of the messages gives back the same messages, and a document file is read byte for byte.",
 ["inputs"], "all lists of messages with valid attributes, and invalid timestamps at any position",
 "Tests load a few message files and mostly look at decisions.",
 ["messages_load.go", "definitions_message.go", "tools.go"],
 [("loading", "messages_load.go:YamlReadMessagesFromString"), ("time", "messages_load.go:AddTimeInfoToMessage"), ("labels", "messages_load.go:parseLabelsJsonOfMessage"), ("addresses", "messages_load.go:AddNetIpToMessage"), ("resource type", "messages_load.go:AddResourceType"), ("one message", "messages_load.go:YamlReadMessageAttributes"), ("document file", "tools.go:ReadBinaryFile")],
 ["return values of YamlReadMessagesFromString, YamlReadMessagesFromFile, YamlReadMessageAttributes", "decision of Check on the loaded messages"])

prop("C19", "Loading rules from text or file preserves every field of every rule",
 "For every list of rules, loading their YAML text or their JSON text, from a string or from a file, gives the same number of rules in the same order with id, sender, receiver, protocol, resource, operation, decision, metadata and conditions as written. Loading the same rules with and without predefined definitions differs only by the definitions, and a text in which any single rule is malformed or writes a field twice, like a file that cannot be read, is rejected as a whole.",
 ["programs", "inputs"], "all lists of rules, and one malformed rule at any position",
 "Tests load fixed files and look at decisions only.",
 ["rules_load.go", "definitions_rule.go", "conditions_tree.go"],
 [("YAML loading", "rules_load.go:YamlReadRulesFromString, YamlReadRulesFromFile"), ("JSON loading", "conditions_tree.go:UnmarshalJSON")],
 ["fields of the loaded rules", "errors of the loading functions"])

prop("C20", "What a rule does not mention cannot change its outcome",
 "Changing a part of the message that a rule does not refer to never changes whether the rule applies, its decision or the values it returns. This covers every identity, address, request and label attribute that neither the rule's fields nor any of its conditions name, and every part of the document outside the paths its conditions, quantifiers and return values go through. It holds at any nesting of the conditions and for both raw and decoded documents.",
 ["inputs", "programs"], "all rules, all messages and all edits of unmentioned parts of the message",
 "It relates two evaluations for every rule and every edit; tests look at single evaluations of fixed rules and never vary what a rule should not look at.",
 ["check.go", "conditions_tree.go"],
 [("attribute dispatch", "check.go:testOneCondition"), ("sender and receiver tests", "check.go:TestSender, TestReceiver"), ("document access", "check.go:testJsonPathCondition, testJsonPathConditionOnInterface")],
 ["decision and return data of Check", "result of TestConditions"])

prop("C21", "Methods and their negations split the values; comparisons form an order",
 "For every attribute that has a value, exactly one of EQ and NEQ and, where the attribute supports them, of RE and NRE, IN and NIN, and EX and NEX is true, and for numbers exactly one of LT and GE and one of LE and GT; where there is no value all of them are false except NEX. On numbers LE is LT or EQ, GE is GT or EQ, NE is NEQ, and the comparison is reflexive, antisymmetric and transitive over every spelling of the numbers, units included. This holds for document paths, elements of quantifiers and message attributes alike.",
 ["inputs"], "all attributes, values and condition values, and all triples of numbers in all supported spellings",
 "The laws quantify over pairs and triples of conditions and values; tests check one condition on one value at a time.",
 ["check.go", "string_utils.go", "rules_load.go"],
 [("number comparison", "check.go:compareFloatFunc, compareIntFunc"), ("string and regex comparison", "check.go:compareStringFunc, compareRegexFunc"), ("units", "string_utils.go:parseFloatWithUnits")],
 ["result of TestConditions", "decision of Check"])

prop("C22", "Widening a rule never loses a message, narrowing never gains one",
 "Adding an element to a name, subnet, resource or operation list, replacing a field by '*', adding a branch to an OR or removing one from an AND, or removing all conditions never makes a rule stop applying to a message it applied to; the opposite edits never make it start applying. Below a NOT the directions swap. Adding an element to the list an ANY ranges over never makes it false, and adding one to the list an ALL ranges over never makes it true.",
 ["programs", "inputs"], "all rules, all widening and narrowing edits of them at any position, all messages and all list extensions",
 "It relates a rule to each of its edits on every message; tests have no pairs of rules that are compared.",
 ["check.go", "conditions_tree.go", "string_utils.go"],
 [("list matching", "string_utils.go:ConvertStringToRegex, ConvertStringToExpandedSenderReceiver"), ("tree evaluation", "conditions_tree.go:Eval"), ("rule matching", "check.go:CheckOneRule")],
 ["decision of Check and CheckOneRule", "result of TestConditions"])

prop("C23", "What is displayed about a rule is what was written",
 "The text forms of a rule (the list of its field texts, the printed table, the text of its conditions and the rule as a string) show every field as written, with 'default' for a protocol, operation or decision that was not given, and every condition as its attribute, method and value as written. AND, OR, NOT, ANY and ALL show all their parts, the children of AND and OR in an order that does not depend on the order they were written in. Preparing, checking, hashing or storing and loading the rule does not change what is displayed.",
 ["programs", "histories"], "all rules and all operations on them before they are displayed",
 "Tests call the printing functions without looking at what they print.",
 ["rules_load.go", "definitions_rule.go", "conditions_tree.go", "tools.go"],
 [("field texts", "tools.go:GetRuleStrings"), ("printed table", "tools.go:Print"), ("text of the conditions", "rules_load.go:RuleConditionsToString"), ("text of a node", "conditions_tree.go:String")],
 ["GetRuleStrings, Print, RuleConditionsToString, Rule.String"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
