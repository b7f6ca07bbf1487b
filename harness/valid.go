package main

import (
	"encoding/json"
	"slices"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"
)

// C14: well formed rules are accepted, malformed ones are rejected.

var badAttributes = []string{"nosuch", "payloadsize", "Domain", "jsonpath", "senderlabel[a]", "sender.namespace", "$senderx", "request", "", "user.name", "senderLabel", "receiverlabel[a]", "encryption", "xdomain", "domainx", "payloadSize ",
	"$sender.name", "$receiver.name", "$sender.", "$receiver.Namespace", "$sender.namespacex", "$receiver.namespace.x", "$sender.labels", "$receiver.cluster ",
	"the $sender.namespace", "x$receiver.cluster", "myreceiverLabel[a]", "a senderLabel[a]", "xjsonpath:$.a", " jsonpath:$.a", " domain"}
var badMethods = []string{"XX", "EQUALS", "=", "", "==", "GTE", "Eq", "gT", "NOT", "LIKE", "EQ ", "is", "contains", "NRX"}
var notNumbers = []string{"abc", "", "1x", "ten", "--1", "1 2", "5%%", "nan", "inf", "NaN", "1,000", "0x", "[1]", "1.2.3"}
var badRegexes = []string{"(", "[", "*a", "a)", "a{2,1}", "(?<", "[z-a]", "\\", "a**", "(?P<n", "[[:x:]]", "+"}
var badLeafPaths = []string{"jsonpath:$KEY.a", "jsonpath:x.y", "jsonpath:x", "jsonpath:", "jsonpath:$x", "jsonpath:$", "jsonpath:@.a", "jsonpath: $.a", "jsonpath:$RELATIVEx", "jsonpath:$relative.a", "jsonpath:/a", "jsonpath:[0]"}
var badIndexPaths = []string{"[:]", "[]", "[*]", "[-1]", "[x]", "[1:2]", "[:].b", "[].b", "[*].b", "[?(@.a)]", "[0].c[:]", "[0].c[*].d", "[1][]", "[ ]"}
var badParents = []string{"jsonpath:a", "$.a", "a", "", "jsonpath:", "jsonpath:$", "jsonpath:$a", "jsonpath:$KEY", "json:$.a[:]"}
var badReturns = []string{"jsonpath:$.a", "$RELATIVE.a", "a", "", "jsonpath:a", "jsonpath:$VALUE", "$.a"}
var orderingMethods = []string{"GT", "GE", "LT", "LE", "gt", "ge", "lt", "le"}
var regexMethods = []string{"RE", "NRE", "re", "nre"}
var memberMethods = []string{"IN", "NIN", "in", "nin", "IS"}
var emptyLists = []string{"[]", "", "[ ]", " ", "[[]]"}
var badKeywords = []string{"XOR", "and", "Or", "NAND", "IF", "ANYX", "", "any", "foo", "NOTALL"}

// leafDefects need a condition to spoil; nodeDefects wrap or replace any node.
var leafDefects = []string{"attribute", "method", "ordering-value", "ordering-label", "regex", "empty-list", "path", "index", "drop-attribute", "drop-method", "label-form", "receiver-value"}
var nodeDefects = []string{"keyword-list", "keyword-node", "two-keywords", "two-keywords-not", "bare-list", "empty-and", "not-two", "no-parent", "no-condition",
	"two-conditions", "bad-return", "bad-parent", "scalar", "unknown-in-quantifier", "list-in-condition", "return-form", "parent-form"}

func genDefect(t *rapid.T, leafToo bool) Defect {
	kinds := nodeDefects
	if leafToo && chance(t, 55) {
		kinds = leafDefects
	}
	d := Defect{Kind: pick(t, kinds...)}
	switch d.Kind {
	case "attribute":
		d.A = pick(t, badAttributes...)
	case "method":
		d.A = pick(t, badMethods...)
	case "ordering-value":
		d.A, d.B = pick(t, orderingMethods...), pick(t, notNumbers...)
	case "ordering-label":
		d.A, d.B = pick(t, orderingMethods...), pick(t, "senderLabel[app]", "receiverLabel[app]", "$sender.namespace", "$receiver.namespace", "$sender.cluster", "$receiver.cluster")
	case "regex":
		d.A, d.B = pick(t, regexMethods...), pick(t, badRegexes...)
	case "empty-list":
		d.A, d.B = pick(t, memberMethods...), pick(t, emptyLists...)
	case "path":
		d.A = pick(t, badLeafPaths...)
	case "index":
		d.A = pick(t, "jsonpath:$.a", "jsonpath:$RELATIVE.a", "jsonpath:$.a.b", `jsonpath:$.a["b"]`, "jsonpath:$.a['b']", `jsonpath:$.a["b-c"]["d.e"]`, "jsonpath:$.a['b'].c", `jsonpath:$RELATIVE["a"]`, `jsonpath:$VALUE["a"].b`, "jsonpath:$.a[12].b", "jsonpath:.a", "jsonpath:$VALUE.a", "jsonpath:$.a[0]") + pick(t, badIndexPaths...)
	case "label-form":
		d.A = pick(t, "senderLabel[a", "receiverLabel[a", "senderLabel[a]b", "receiverLabel[a].b", "senderLabel[a]]", "receiverLabel[a]]", "senderLabel[a]b]", "receiverLabel[a].[b]")
		if chance(t, 45) {
			d.B = pick(t, "receiverLabel[a", "receiverLabel[a]b", "receiverLabel[a].b", "receiverLabel[", "receiverLabel[a] ", "receiverLabel[a]]", "receiverLabel[a]b]")
		}
	case "receiver-value":
		d.A, d.B = pick(t, "$sender.namespace", "$sender.cluster"), pick(t, "$receiver.name", "$receiver.", "$receiver.Namespace", "$receiver.namespacex", "$receiver.namespace.x", "$receiver.cluster ")
	case "keyword-list", "keyword-node":
		d.A = pick(t, badKeywords...)
	case "two-keywords":
		d.A, d.B = pick(t, opAnd, opOr), pick(t, "XOR", opNot, "condition", opAny)
		if d.A == opAnd && chance(t, 50) {
			d.B = opOr
		}
	case "two-keywords-not", "bare-list", "not-two":
		d.A = pick(t, opAnd, opOr)
	case "empty-and":
		d.A, d.B = pick(t, opAnd, opOr, opNot, opAny, opAll), pick(t, "list", "map")
	case "no-parent", "no-condition", "two-conditions", "unknown-in-quantifier", "list-in-condition":
		d.A = pick(t, opAny, opAll)
	case "bad-return":
		d.A, d.B = pick(t, opAny, opAll), pick(t, badReturns...)
	case "return-form":
		d.A, d.B = pick(t, opAny, opAll), pick(t, "number", "bool", "null", "list", "object", "text", "names", "seven")
	case "parent-form":
		d.A, d.B = pick(t, opAny, opAll), pick(t, "number", "bool", "null", "object", "none", "numbers", "mixed", "nested")
	case "bad-parent":
		d.A, d.B = pick(t, opAny, opAll), pick(t, badParents...)
	case "scalar":
		d.A = pick(t, "text", "number", "bool", "null")
	}
	return d
}

func (n *Node) malformed() any {
	d := *n.Bad
	m := *n
	m.Bad = nil
	spoil := func(f func(c *Cond)) any {
		c := *n.Cond
		f(&c)
		m.Cond = &c
		return m.generic()
	}
	attr := func(a string) any { return spoil(func(c *Cond) { c.Path, c.Attr, c.Ret = nil, a, nil }) }
	onPath := func(c *Cond) { // make sure the attribute is one that takes the method
		if c.Path == nil && c.Attr != "domain" && !strings.HasPrefix(c.Attr, "senderLabel[") {
			c.Attr = "domain"
		}
	}
	good := func() any { return m.generic() }
	quant := func(items ...kv) any { return obj{{Key: d.A, Value: obj(items)}} }
	parent := kv{Key: "parentJsonpathAttribute", Value: "jsonpath:$.a[:]"}
	switch d.Kind {
	case "label-form":
		if d.B != "" {
			return spoil(func(c *Cond) {
				c.Path, c.Attr, c.Ret, c.Method, c.Val = nil, "senderLabel[a]", nil, "EQ", Val{Kind: "str", S: d.B}
			})
		}
		return attr(d.A)
	case "receiver-value":
		return spoil(func(c *Cond) {
			c.Path, c.Attr, c.Ret, c.Method, c.Val = nil, d.A, nil, "EQ", Val{Kind: "str", S: d.B}
		})
	case "attribute", "path", "index":
		return attr(d.A)
	case "method":
		return spoil(func(c *Cond) { c.Method = d.A })
	case "ordering-value":
		return spoil(func(c *Cond) {
			if c.Path == nil {
				c.Attr = "payloadSize"
			}
			c.Method, c.Val = d.A, Val{Kind: "str", S: d.B}
		})
	case "ordering-label":
		return spoil(func(c *Cond) { c.Path, c.Attr, c.Ret, c.Method, c.Val = nil, d.B, nil, d.A, Val{Kind: "num", S: "1"} })
	case "regex", "empty-list":
		return spoil(func(c *Cond) { onPath(c); c.Method, c.Val = d.A, Val{Kind: "str", S: d.B} })
	case "drop-attribute", "drop-method":
		out := obj{}
		for _, e := range condGeneric(n.Cond, n.Sp%3 == 2) {
			if !strings.EqualFold(e.Key.(string), strings.TrimPrefix(d.Kind, "drop-")) {
				out = append(out, e)
			}
		}
		return out
	case "keyword-list":
		return obj{{Key: d.A, Value: []any{good(), good()}}}
	case "keyword-node":
		return obj{{Key: d.A, Value: good()}}
	case "two-keywords":
		return obj{{Key: d.A, Value: []any{good()}}, {Key: d.B, Value: []any{good()}}}
	case "two-keywords-not":
		return obj{{Key: opNot, Value: good()}, {Key: d.A, Value: []any{good()}}}
	case "bare-list":
		return []any{good(), good()}
	case "not-two":
		return obj{{Key: opNot, Value: []any{good(), good()}}}
	case "empty-and":
		var v any = []any{}
		if d.B == "map" {
			v = obj{}
		}
		return obj{{Key: d.A, Value: v}}
	case "no-parent":
		return quant(kv{Key: "condition", Value: good()})
	case "no-condition":
		return quant(parent, kv{Key: "returnValueJsonpath", Value: obj{{Key: "x", Value: "jsonpath:$RELATIVE.a"}}})
	case "two-conditions":
		return quant(parent, kv{Key: "condition", Value: good()}, kv{Key: opAnd, Value: []any{good()}})
	case "bad-return":
		return quant(parent, kv{Key: "returnValueJsonpath", Value: obj{{Key: "x", Value: d.B}}}, kv{Key: "condition", Value: good()})
	case "return-form":
		ok := kv{Key: "a", Value: "jsonpath:$RELATIVE.a"}
		v, whole := map[string]any{"number": 5, "bool": true, "null": nil, "list": []any{"jsonpath:$RELATIVE.a"}, "object": obj{ok}}[d.B]
		var ret any = obj{ok, {Key: "x", Value: v}}
		if !whole {
			ret = map[string]any{"text": "jsonpath:$RELATIVE.a", "names": []any{"a", "x"}, "seven": 7}[d.B]
		}
		return quant(parent, kv{Key: "returnValueJsonpath", Value: ret}, kv{Key: "condition", Value: good()})
	case "parent-form":
		p := "jsonpath:$.a[:]"
		v := map[string]any{"number": 5, "bool": true, "object": obj{{Key: "a", Value: p}}, "none": []any{}, "numbers": []any{1, 2}, "mixed": []any{p, 3}, "nested": []any{[]any{p}}}[d.B]
		return quant(kv{Key: "parentJsonpathAttribute", Value: v}, kv{Key: "condition", Value: good()})
	case "bad-parent":
		return quant(kv{Key: "parentJsonpathAttribute", Value: d.B}, kv{Key: "condition", Value: good()})
	case "unknown-in-quantifier":
		return quant(parent, kv{Key: "conditionx", Value: good()})
	case "list-in-condition":
		return quant(parent, kv{Key: "condition", Value: []any{good(), good()}})
	case "scalar":
		switch d.A {
		case "number":
			return 5
		case "bool":
			return true
		case "null":
			return nil
		}
		return "abc"
	}
	panic("defect " + d.Kind)
}

type caseValid struct {
	Rule  RuleAST   `json:"rule"`
	Rest  []RuleAST `json:"rest,omitempty"`
	At    int       `json:"at,omitempty"`
	How   string    `json:"how"`
	Where int       `json:"where,omitempty"`
	Msg   Msg       `json:"msg"`
	Defs  *Defs     `json:"defs,omitempty"`
	Edit  *Defect   `json:"edit,omitempty"`
}

var validHows = []string{"yaml", "json", "json-as-yaml", "yaml-file", "json-generic", "bson", "json-one"}

// offer gives the rules to a loader and tells its verdict.
func offer(list []any, how string) (rules me.Rules, lerr error, err error) {
	g := obj{{Key: "rules", Value: list}}
	err = guarded("loading", func() {
		switch kindOfHow(how) {
		case "bson":
			rules, lerr = loadBSON(g)
		case "json-one":
			for _, r := range list {
				var one me.Rule
				if lerr = json.Unmarshal([]byte(toJSON(r)), &one); lerr != nil {
					return
				}
				rules.Rules = append(rules.Rules, one)
			}
		default:
			rules, lerr = loadHow(g, how, "rules.yaml", false, me.PredefinedStringsAndLists{})
		}
	})
	return
}

func loadBSON(g obj) (rules me.Rules, err error) {
	var gen bson.D
	must(bson.UnmarshalExtJSON([]byte(toJSON(g)), false, &gen))
	b, e := bson.Marshal(gen)
	must(e)
	err = bson.Unmarshal(b, &rules)
	return
}

func genValid(t *rapid.T) caseValid {
	o := genOpt{odd: true, attrs: true, ret: chance(t, 30)}
	c := caseValid{How: styled(t, validHows...)}
	doc := genDoc(t, o)
	c.Msg = withDoc(t, genMsg(t), doc)
	c.Rule = genFrame(t, 0, chance(t, 70))
	c.Rule.Tree = genTree(t, scope{doc: doc}, between(t, 0, 4), o)
	c.Rule.TreeSp = between(t, 0, 2)
	if c.How == "bson" {
		c.Rule.TreeSp = between(t, 0, 1) // a BSON document holds a document there, never an array
	}
	if chance(t, 30) {
		for i, n := 0, between(t, 1, 3); i < n; i++ {
			r := genFrame(t, i+1, true)
			if chance(t, 50) {
				r.Tree = genTree(t, scope{doc: doc}, between(t, 0, 2), o)
			}
			c.Rest = append(c.Rest, r)
		}
		c.At = between(t, 0, len(c.Rest))
	}
	return c
}

func (c caseValid) list() []any {
	l := []any{}
	for i := 0; i <= len(c.Rest); i++ {
		if i == c.At {
			l = append(l, c.Rule.generic())
		}
		if i < len(c.Rest) {
			l = append(l, c.Rest[i].generic())
		}
	}
	return l
}

func usable(r *me.Rule, m *Msg, defs me.PredefinedStringsAndLists) error {
	var perr error
	if err := guarded("preparation", func() { perr = r.SetPredefinedStringsAndLists(defs) }); err != nil {
		return err
	}
	if perr != nil {
		return violated("an accepted rule cannot be prepared: %v", perr)
	}
	if err := guarded("preparation", func() { perr = me.PrepareOneRuleWithPredefinedStrings(r, defs) }); err != nil {
		return err
	}
	for _, mode := range []string{docRaw, docIntf} {
		if _, _, err := checkOne(buildMsg(m, mode), r); err != nil {
			return err
		}
	}
	return nil
}

func validate(r *me.Rule) (verr error, err error) {
	err = guarded("validation", func() { verr = me.ValidateRule(r) })
	return
}

func init() {
	rules["C14"] = "non-trivial: the conditions tree has at least two levels"
	nt := func(c caseValid, x *ctx) { x.nt(c.Rule.Tree != nil && c.Rule.Tree.depth() >= 2) }
	addFacet("C14", "accepts", 5000, genValid, func(c caseValid, x *ctx) error {
		nt(c, x)
		x.class("%s", kindOfHow(c.How))
		rules, lerr, err := offer(c.list(), c.How)
		if err != nil {
			return err
		}
		if lerr != nil {
			return violated("well formed rules are rejected by %s: %v\n%s", c.How, lerr, toYAML(c.Rule.generic()))
		}
		for i := range rules.Rules {
			verr, err := validate(&rules.Rules[i])
			if err != nil {
				return err
			}
			if verr != nil {
				return violated("rule %d is well formed and validation rejects it: %v\n%s", i, verr, toYAML(c.Rule.generic()))
			}
			if err := usable(&rules.Rules[i], &c.Msg, me.PredefinedStringsAndLists{}); err != nil {
				return err
			}
		}
		return nil
	})
	addFacet("C14", "rejects", 9000, func(t *rapid.T) caseValid {
		c := genValid(t)
		var nodes []*Node
		c.Rule.Tree.walk(func(n *Node) { nodes = append(nodes, n) })
		n := nodes[between(t, 0, len(nodes)-1)]
		d := genDefect(t, n.Op == opCond)
		n.Bad = &d
		if d.Kind == "scalar" && d.A == "null" && n == c.Rule.Tree {
			d.A = "text"
		}
		return c
	}, func(c caseValid, x *ctx) error {
		nt(c, x)
		kind := ""
		c.Rule.Tree.walk(func(n *Node) {
			if n.Bad != nil {
				kind = n.Bad.Kind
			}
		})
		x.class("%s", kind)
		_, lerr, err := offer(c.list(), c.How)
		if err != nil {
			return err
		}
		if lerr == nil {
			return violated("a malformed rule (%s) is accepted by %s\n%s", kind, c.How, toYAML(c.Rule.generic()))
		}
		return nil
	})
	addFacet("C14", "edited", 4000, func(t *rapid.T) caseValid {
		c := genValid(t)
		c.Rest, c.At = nil, 0
		c.Where = between(t, 0, 1000)
		d := genDefect(t, true)
		for d.A == "" || !slices.Contains([]string{"attribute", "method", "ordering-value", "ordering-label", "regex", "empty-list", "path", "index"}, d.Kind) {
			d = genDefect(t, true)
		}
		c.Edit = &d
		return c
	}, func(c caseValid, x *ctx) error {
		nt(c, x)
		rules, lerr, err := offer(c.list(), c.How)
		if err != nil {
			return err
		}
		if lerr != nil {
			return violated("well formed rules are rejected by %s: %v\n%s", c.How, lerr, toYAML(c.Rule.generic()))
		}
		r := &rules.Rules[0]
		var cs []loaded
		root, _ := rootOf(r)
		eachCondition(root, func(k loaded) { cs = append(cs, k) })
		if len(cs) == 0 {
			return nil
		}
		k := cs[c.Where%len(cs)]
		d := c.Edit
		ok := true
		set := func(field, val string) { ok = k.set(field, val) && ok }
		if a, _ := k.text("Attribute"); !strings.HasPrefix(a, "jsonpath:") || d.Kind == "ordering-label" {
			set("Attribute", "domain")
		}
		switch d.Kind {
		case "attribute", "path", "index":
			set("Attribute", d.A)
		case "method":
			set("Method", d.A)
		case "ordering-value", "regex", "empty-list":
			set("Method", d.A)
			set("Value", d.B)
		case "ordering-label":
			set("Attribute", d.B)
			set("Method", d.A)
			set("Value", "1")
		}
		if !ok {
			return nil
		}
		x.class("%s", d.Kind)
		verr, err := validate(r)
		if err != nil {
			return err
		}
		if verr == nil {
			return violated("validation accepts a rule with a malformed condition (%s: %q %q)", d.Kind, d.A, d.B)
		}
		var perr error
		if err := guarded("preparation", func() {
			perr = me.PrepareOneRuleWithPredefinedStrings(r, me.PredefinedStringsAndLists{})
		}); err != nil {
			return err
		}
		if perr == nil {
			return violated("preparation accepts a rule with a malformed condition (%s)", d.Kind)
		}
		return nil
	})
	addFacet("C14", "defined", 3000, func(t *rapid.T) caseValid {
		c := genValid(t)
		c.Rest, c.At = nil, 0
		c.Where = between(t, 0, 1000)
		d := Defect{Kind: pick(t, "ordering-value", "regex", "empty-list", "none"), B: pick(t, "string", "list")}
		c.Defs = &Defs{Strings: map[string]string{"other": "a"}, Lists: map[string][]string{"others": {"a", "b"}}}
		val := ""
		switch d.Kind {
		case "ordering-value":
			d.A, val = pick(t, orderingMethods...), pick(t, notNumbers...)
		case "regex":
			d.A, val = pick(t, regexMethods...), pick(t, badRegexes...)
		case "empty-list":
			d.A, d.B = pick(t, memberMethods...), "list"
		case "none":
			switch between(t, 0, 2) {
			case 0:
				d.A, val, d.B = pick(t, orderingMethods...), pick(t, "1", "2.5", "10", "-3", "5%", "2Ki"), "string"
			case 1:
				d.A, val = pick(t, regexMethods...), pick(t, "a", "^b", "a|b", "x.*")
			case 2:
				d.A, val = pick(t, memberMethods...), pick(t, "a", "b1")
			}
		}
		if d.B == "string" {
			c.Defs.Strings["name"] = val
		} else {
			c.Defs.Lists["name"] = []string{val}
			if d.Kind == "empty-list" {
				c.Defs.Lists["name"] = []string{}
			} else if chance(t, 50) && d.Kind != "ordering-value" {
				c.Defs.Lists["name"] = []string{"a", val}
			}
		}
		c.Edit = &d
		return c
	}, func(c caseValid, x *ctx) error {
		nt(c, x)
		var leaves []*Node
		c.Rule.Tree.walk(func(n *Node) {
			if n.Op == opCond {
				leaves = append(leaves, n)
			}
		})
		n := leaves[c.Where%len(leaves)]
		if n.Cond.Path == nil {
			n.Cond.Attr = "domain"
		}
		n.Cond.Method, n.Cond.Val = c.Edit.A, Val{Kind: "ref", S: "name"}
		ed, err := engineDefs(*c.Defs, false, "")
		if err != nil {
			return violated("valid definitions are rejected: %v", err)
		}
		rules, lerr, err := offer(c.list(), c.How)
		if err != nil {
			return err
		}
		if lerr != nil {
			return violated("a rule with a reference is rejected by %s: %v\n%s", c.How, lerr, toYAML(c.Rule.generic()))
		}
		r := &rules.Rules[0]
		var perr error
		if err := guarded("preparation", func() { perr = r.SetPredefinedStringsAndLists(ed) }); err != nil {
			return err
		}
		x.class("%s %s rejected %v", c.Edit.Kind, c.Edit.B, perr != nil)
		if c.Edit.Kind == "none" {
			if perr != nil {
				return violated("%s with %v/%v cannot be prepared: %v", c.Edit.A, c.Defs.Strings["name"], c.Defs.Lists["name"], perr)
			}
			return nil
		}
		if perr == nil {
			return violated("%s with the defined value %q / list %q is accepted", c.Edit.A, c.Defs.Strings["name"], c.Defs.Lists["name"])
		}
		code, _, err := checkOne(buildMsg(&c.Msg, docRaw), r)
		if err != nil {
			return err
		}
		if code > 0 {
			return violated("the rule cannot be prepared and applies to a message")
		}
		return nil
	})
}
