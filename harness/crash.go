package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

// C15: nothing that is offered as rules, definitions or messages crashes the engine.

var wildStrings = []string{"", " ", "*", "?", "(", "[", "]", "[]", "[:]", "[,]", "$", "$.", "$..", "$.*", "$.a[", "$.a]", "$.a[0", "$.a[99999999999999999999]",
	"jsonpath:", "jsonpath:$", "jsonpath:$.", "jsonpath:$..", "jsonpath:$...a", "jsonpath:$.a[0", "jsonpath:$.a]", "jsonpath:$.a['", `jsonpath:$.a["`, "jsonpath:$.'", "jsonpath:$.a.'b",
	"jsonpath:.", "jsonpath:..", "jsonpath:.a", "jsonpath:.[0]", "jsonpath:$RELATIVE", "jsonpath:$RELATIVE.", "jsonpath:$RELATIVE*", "jsonpath:$RELATIVE[", "jsonpath:$RELATIVE[:]", "jsonpath:$RELATIVE.*",
	"jsonpath:$KEY", "jsonpath:$KEY[0]", "jsonpath:$KEYa", "jsonpath:$VALUE", "jsonpath:$VALUE.", "jsonpath:$VALUE[", "jsonpath:$VALUE.a[0].b", "jsonpath:$VALUEa", "jsonpath:$VALUE..",
	"jsonpath:$.a[?(@.b)]", "jsonpath:$.a[?(@.b>1)]", "jsonpath:$.a[(@.length-1)]", "jsonpath:$.a[1:2]", "jsonpath:$.a[::2]", "jsonpath:$.a[-1]", "jsonpath:$.a[1,2]", "jsonpath:$.l0[0:100]",
	",", ",,", "jsonpath:$.a,", "jsonpath:$.a[:],,jsonpath:$.b", "jsonpath:$.l0[:].jsonpath:", "jsonpath:$.*", "jsonpath:$.*.*", "jsonpath:$..*", "jsonpath:$.l0[:][:][:]", "jsonpath:$.a[ 0 ]", "jsonpath:$.a[0x1]", "jsonpath:$.a[+1]",
	`jsonpath:$.a[""]`, "jsonpath:$.a['']", `jsonpath:$.a["]`, "jsonpath:$.a[']", `jsonpath:$.a["b']`, "jsonpath:$.a[]]", "jsonpath:$.a[[0]]", "jsonpath:$.a[[[",
	"senderLabel[", "senderLabel[]", "senderLabel[a]]", "senderLabel[[a]", "receiverLabel]", "receiverLabel[", "receiverLabel[]", "$sender.", "$receiver.", "$sender.nosuch", "$receiver.x.y",
	"#", "##", "#a", "#a b", "\x00", "é", "日本", " ", "5%", "%", "Ki", "1e999", "-1e999", "-", "+", ".", "1.", ".5", "999999999999999999999999", "-0", "0x10", "1_000", "NaN", "1e-400",
	"true", "TRUE", "false", "payloadSize", "encryptionVersion", "utcHoursFromMidnight", "domain", "requestUseragent", "encryptionType",
	"EQ", "NEQ", "NE", "RE", "NRE", "IN", "NIN", "IS", "EX", "NEX", "GT", "GE", "LT", "LE", "in", "nin", "subnet", "hostname", "workload", "tcp", "TCP", "http", "10.0.0.0/33", "/24", "::/129", "1.2.3.4/",
	"(?i)a", "a{1000}", "(a*)*", "(a{500}){500}", "\\", "\\1", "(?<x>a)", "[^", "a|", "|", "^$", "{}", "{a:b}", "{:}", "{,}"}

var wildAlphabet = []rune("$.[]'\"*?:@,()a0l -|\\")

func genWildString(t *rapid.T) string {
	if chance(t, 60) {
		return pick(t, wildStrings...)
	}
	s := ""
	if chance(t, 60) {
		s = pick(t, "jsonpath:$.", "jsonpath:$", "jsonpath:$RELATIVE", "jsonpath:$VALUE", "jsonpath:$.l0", "senderLabel[", "$sender.")
	}
	for i, n := 0, between(t, 0, 8); i < n; i++ {
		s += string(wildAlphabet[between(t, 0, len(wildAlphabet)-1)])
	}
	if chance(t, 2) {
		s = strings.Repeat(s+"a", 400)
	}
	return s
}

func genWildValue(t *rapid.T, depth int) any {
	switch between(t, 0, 11) {
	case 0:
		return nil
	case 1:
		return pick(t, true, false)
	case 2:
		return pick(t, 0, 1, -1, 1<<31, 1<<62)
	case 3:
		return pick(t, 0.5, -1.25, 1e300, 1e-300, 123456789.125)
	case 4:
		return []any{}
	case 5:
		return obj{}
	case 6:
		if depth > 0 {
			l := []any{}
			for i, n := 0, between(t, 1, 3); i < n; i++ {
				l = append(l, genWildValue(t, depth-1))
			}
			return l
		}
	case 7, 8:
		if depth > 0 {
			o := obj{}
			for i, n := 0, between(t, 1, 4); i < n; i++ {
				o = append(o, kv{Key: genWildKey(t), Value: genWildValue(t, depth-1)})
			}
			return o
		}
	}
	return genWildString(t)
}

var fuzzKeys = []any{"AND", "OR", "NOT", "ANY", "ALL", "condition", "conditions", "conditionsTree", "parentJsonpathAttribute", "returnValueJsonpath", "attribute", "method", "value",
	"Attribute", "Method", "Value", "valueInt", "ValueFloat", "sender", "senderName", "ruleID", "metadata", "rules", "resource", "hash", "", "x", "$", "a.b", "ruleId", "Conditions"}

func genWildKey(t *rapid.T) any { return fuzzKeys[between(t, 0, len(fuzzKeys)-1)] }

// places lists every position in a generic structure.
func places(v any, set func(any), out *[]func(func(any) any)) {
	*out = append(*out, func(f func(any) any) { set(f(v)) })
	switch x := v.(type) {
	case obj:
		for i := range x {
			i := i
			places(x[i].Value, func(n any) { x[i].Value = n }, out)
		}
	case []any:
		for i := range x {
			i := i
			places(x[i], func(n any) { x[i] = n }, out)
		}
	}
}

func mutateGeneric(t *rapid.T, v any) any {
	var ps []func(func(any) any)
	places(v, func(n any) { v = n }, &ps)
	ps[between(t, 0, len(ps)-1)](func(old any) any {
		switch between(t, 0, 9) {
		case 0:
			return []any{old}
		case 1:
			return []any{old, old}
		case 2:
			return obj{{Key: genWildKey(t), Value: old}}
		case 3:
			if o, ok := old.(obj); ok && len(o) > 0 {
				i := between(t, 0, len(o)-1)
				return append(append(obj{}, o[:i]...), o[i+1:]...)
			}
		case 4:
			if o, ok := old.(obj); ok {
				return append(append(obj{}, o...), kv{Key: genWildKey(t), Value: genWildValue(t, 2)})
			}
		case 5:
			if o, ok := old.(obj); ok && len(o) > 0 {
				c := append(obj{}, o...)
				c[between(t, 0, len(c)-1)].Key = genWildKey(t)
				return c
			}
		case 6:
			if l, ok := old.([]any); ok {
				if chance(t, 50) {
					return []any{}
				}
				return append(append([]any{}, l...), genWildValue(t, 2))
			}
		}
		if _, ok := old.(string); ok && chance(t, 80) {
			return genWildString(t)
		}
		return genWildValue(t, 2)
	})
	return v
}

type caseWild struct {
	Kind string    `json:"kind"` // how the rules are offered
	Text []byte    `json:"text"`
	Msgs []wildMsg `json:"msgs"`
	Defs []byte    `json:"defs,omitempty"`
}

type wildMsg struct {
	Msg  Msg    `json:"msg"`
	Raw  []byte `json:"raw,omitempty"`
	Dec  []byte `json:"dec,omitempty"` // decoded from this text
	How  string `json:"how,omitempty"` // raw, json, yaml, both, none, zero
	Zero bool   `json:"zero,omitempty"`
}

func (w wildMsg) build() *me.MessageAttributes {
	if w.Zero {
		return &me.MessageAttributes{}
	}
	a := buildMsg(&w.Msg, docRaw)
	if w.How == "raw" || w.How == "both" {
		b := append([]byte{}, w.Raw...)
		a.RequestJsonRaw = &b
	}
	if w.How == "json" || w.How == "both" {
		var v any
		if json.Unmarshal(w.Dec, &v) == nil {
			a.RequestRawInterface = &v
		}
	}
	if w.How == "yaml" {
		var v any
		if yaml.Unmarshal(w.Dec, &v) == nil {
			a.RequestRawInterface = &v
		}
	}
	return a
}

// mutateBytes changes a few characters of a text.
func mutateBytes(t *rapid.T, b []byte, n int) []byte {
	frag := []string{"{", "}", "[", "]", ":", ",", "\"", "'", "\\", "\n", "\t", " ", "  ", "-", "- ", "#", "&a", "*a", "!!binary ", "!!str ", "!!int ", "<<: ", "? ", "|\n", ">\n", "%", "@", "`",
		"null", "~", "true", "0", "9", "e", "e+5", ".", "\x00", "\xff", "\xc3", " ", "a: ", "--- ", "...", "\\u0000", "\\ud800", "{}", "[]", "1e999", "\r\n"}
	b = append([]byte{}, b...)
	for ; n > 0; n-- {
		p := between(t, 0, len(b))
		switch between(t, 0, 5) {
		case 0:
			b = append(b[:p:p], append([]byte(pick(t, frag...)), b[p:]...)...)
		case 1:
			q := p + between(t, 1, 6)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:p:p], b[q:]...)
		case 2: // truncate
			b = b[:p:p]
		case 3: // repeat a piece
			q := p + between(t, 1, 30)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:q:q], b[p:]...)
		case 4:
			if p < len(b) {
				b[p] = byte(between(t, 0, 255))
			}
		case 5: // drop a line
			s := strings.Split(string(b), "\n")
			i := between(t, 0, len(s)-1)
			s = append(s[:i:i], s[i+1:]...)
			b = []byte(strings.Join(s, "\n"))
		}
		if len(b) > 20000 {
			b = b[:20000]
		}
	}
	return b
}

func genWildMsg(t *rapid.T, doc any) wildMsg {
	w := wildMsg{Msg: genMsg(t), How: pick(t, "raw", "raw", "raw", "json", "json", "yaml", "both", "none")}
	if chance(t, 5) {
		w.Zero = true
	}
	if chance(t, 15) {
		w.Msg.SrcLabels = nil
	}
	text := renderDoc(doc, between(t, 0, 15))
	switch between(t, 0, 5) {
	case 0:
		text = mutateBytes(t, text, between(t, 1, 4))
	case 1:
		text = []byte(pick(t, "", " ", "null", "1", `"a"`, "[]", "{}", "[[[]]]", "{", "[", `{"`, `{"a`, `{"a"`, `{"a":`, `{"a":}`, `{"s0":"`, `{"s0":"a`, `{"l0":[`, `{"l0":[1,`, `{"l0":[{"a":1},`, "tru", "-", "\x00", "\xff", `{"l0":1}`,
			`{"s0":"\u00`, `{"l0":[[1],[2]]}`, `[1,2,{"s0":1}]`, `{"s0":nul`, `{"l0":{"a":{"b":[`, `{"":{"":1}}`, "abc", `{"s0":"\ud800"}`, `{"a":1,"a":2}`, `{"l0":[,]}`, `{"l0":[1 2]}`))
	case 2:
		d := between(t, 1, 40)
		text = []byte(strings.Repeat(pick(t, `{"l0":`, "[", `{"s0":[`), d))
		if chance(t, 60) {
			text = []byte(strings.Repeat(`{"l0":[`, d) + "1" + strings.Repeat("]}", d))
		}
	}
	w.Raw = text
	w.Dec = text
	if !json.Valid(text) {
		w.Dec = renderDoc(doc, 0)
	}
	return w
}

// wildRules is a rules document: valid ones, changed in some places.
func wildRules(t *rapid.T, o genOpt, doc any) obj {
	list := []any{}
	for i, n := 0, between(t, 1, 2); i < n; i++ {
		r := genFrame(t, i, chance(t, 85))
		if chance(t, 95) {
			r.Tree = genTree(t, scope{doc: doc}, between(t, 0, 3), o)
			r.TreeSp = between(t, 0, 2)
			r.Tree.walk(func(n *Node) { // keys and values of whatever the elements are
				if n.Cond != nil && n.Cond.Path != nil && n.Cond.Path.relative() && chance(t, 15) {
					n.Cond.Path.Root = pick(t, rootKey, rootValue)
					n.Cond.Path.Steps = nil
				}
			})
		}
		list = append(list, r.generic())
	}
	return obj{{Key: "rules", Value: list}}
}

// stringsOnly changes only texts, so that the document usually still loads.
func mutateStrings(t *rapid.T, v any, n int) {
	var ps []func(func(any) any)
	places(v, func(any) {}, &ps)
	var strs []func(func(any) any)
	for _, p := range ps {
		isStr := false
		p(func(old any) any { _, isStr = old.(string); return old })
		if isStr {
			strs = append(strs, p)
		}
	}
	for ; n > 0; n-- {
		strs[between(t, 0, len(strs)-1)](func(old any) any {
			s := old.(string)
			if chance(t, 40) && s != "" { // a small change
				p := between(t, 0, len(s))
				return s[:p] + string(wildAlphabet[between(t, 0, len(wildAlphabet)-1)]) + s[p:]
			}
			if chance(t, 20) && s != "" {
				p := between(t, 0, len(s)-1)
				return s[:p] + s[p+1:]
			}
			return genWildString(t)
		})
	}
}

func genFuzz(t *rapid.T, mode string) caseWild {
	o := genOpt{odd: true, attrs: true, ret: chance(t, 40)}
	doc := genDoc(t, o)
	g := any(wildRules(t, o, doc))
	c := caseWild{Kind: pick(t, "yaml", "yaml", "json", "json", "bson")}
	switch mode {
	case "values":
		mutateStrings(t, g, between(t, 1, 4))
	case "structure":
		for i, n := 0, between(t, 1, 4); i < n; i++ {
			g = mutateGeneric(t, g)
		}
	case "documents", "texts":
	}
	if c.Kind == "yaml" {
		c.Text = []byte(toYAML(g))
	} else {
		c.Text = []byte(toJSON(g))
	}
	if mode == "texts" {
		c.Text = mutateBytes(t, c.Text, between(t, 1, 5))
	}
	n := 2
	if mode == "documents" {
		n = 6
	}
	for i := 0; i < n; i++ {
		c.Msgs = append(c.Msgs, genWildMsg(t, doc))
	}
	return c
}

func offerText(kind string, text []byte) (rules me.Rules, lerr error, err error) {
	err = guarded("loading rules", func() {
		switch kind {
		case "yaml":
			rules, lerr = me.YamlReadRulesFromString(string(text))
		case "json":
			lerr = json.Unmarshal(text, &rules)
		case "bson":
			var gen any
			var d bson.D
			if json.Unmarshal(text, &gen) != nil || bson.UnmarshalExtJSON(text, false, &d) != nil {
				lerr = fmt.Errorf("not a document")
				return
			}
			b, e := bson.Marshal(d)
			if e != nil {
				lerr = e
				return
			}
			lerr = bson.Unmarshal(b, &rules)
		}
	})
	return
}

// exercise does everything a user can do with a loaded rule.
func exercise(r *me.Rule, msgs []*me.MessageAttributes) error {
	use := func(when string) error {
		if err := guarded("printing "+when, func() {
			_ = me.RuleToString(*r) + r.String() + me.RuleMD5Hash(*r) + me.RuleMD5HashConditions(*r)
			_ = r.ConditionsEqual(*r)
			_ = me.GetRuleStrings(r)
			out := os.Stdout
			os.Stdout = devNull()
			defer func() { os.Stdout = out }()
			r.Print()
		}); err != nil {
			return err
		}
		if err := guarded("writing "+when, func() {
			b, err := json.Marshal(r)
			if err == nil {
				var back me.Rule
				_ = json.Unmarshal(b, &back)
			}
			b, err = bson.Marshal(r)
			if err == nil {
				var back me.Rule
				_ = bson.Unmarshal(b, &back)
			}
		}); err != nil {
			return err
		}
		if err := guarded("translating "+when, func() {
			_, _ = r.ToMongoQuery("")
			_, _ = r.ToMongoQuery("raw.doc")
		}); err != nil {
			return err
		}
		for i, m := range msgs {
			if err := guarded(fmt.Sprintf("checking message %d %s", i, when), func() {
				me.CheckOneRule(m, r)
				r.Check(m)
				me.TestConditions(r, m)
				r.TestConditions(m)
			}); err != nil {
				return err
			}
		}
		return nil
	}
	if err := use("as loaded"); err != nil {
		return err
	}
	verr, err := validate(r)
	if err != nil {
		return err
	}
	var perr error
	if err := guarded("preparation", func() { perr = r.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) }); err != nil {
		return err
	}
	ref := strings.HasPrefix(r.Sender.SenderName, "#") || strings.HasPrefix(r.Receiver.ReceiverName, "#") // validation does not know the definitions
	if verr == nil && perr != nil && !ref {
		return violated("validation accepts a rule that cannot be prepared: %v", perr)
	}
	for i, m := range msgs {
		code := 0
		if err := guarded("checking", func() { code, _ = me.CheckOneRule(m, r) }); err != nil {
			return err
		}
		if perr != nil && code > 0 {
			return violated("the rule cannot be prepared (%v) and applies to message %d", perr, i)
		}
	}
	if err := use("after preparation"); err != nil {
		return err
	}
	if err := guarded("preparing in place", func() {
		_ = r.GetPreparedRule()
		_ = me.PrepareOneRule(r)
	}); err != nil {
		return err
	}
	return use("after preparing in place")
}

var devNullFile *os.File

func devNull() *os.File {
	if devNullFile == nil {
		f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		must(err)
		devNullFile = f
	}
	return devNullFile
}

func short(b []byte) string {
	if len(b) > 1500 {
		return fmt.Sprintf("%q...", b[:1500])
	}
	return fmt.Sprintf("%q", b)
}

func checkWild(c caseWild, x *ctx) error {
	x.class("%s", c.Kind)
	rules, lerr, err := offerText(c.Kind, c.Text)
	if err == nil {
		x.class("loads %v", lerr == nil)
		x.nt(lerr == nil)
		if lerr != nil {
			return nil
		}
		var msgs []*me.MessageAttributes
		for _, m := range c.Msgs {
			msgs = append(msgs, m.build())
		}
		for i := range rules.Rules {
			if err = exercise(&rules.Rules[i], msgs); err != nil {
				break
			}
		}
		if err == nil {
			err = guarded("checking all", func() {
				all := me.Messages{}
				for i, m := range msgs {
					me.Check(m, &rules)
					m.MessageID = fmt.Sprint(i)
					all.Messages = append(all.Messages, *m)
				}
				me.Coverage(&all, &rules)
			})
		}
	}
	if err != nil {
		s := ""
		for _, m := range c.Msgs {
			s += fmt.Sprintf("\n%s document: %s", m.How, short(m.Raw))
		}
		return violated("%v\nrules (%s): %s%s", err, c.Kind, short(c.Text), s)
	}
	return nil
}

type caseText struct {
	What string `json:"what"`
	Text []byte `json:"text"`
}

func checkText(c caseText, x *ctx) error {
	x.class("%s", c.What)
	s := string(c.Text)
	name := filepath.Join(scratch(), "text")
	ok := false
	err := guarded("loading "+c.What, func() {
		switch c.What {
		case "rules":
			r, err := me.YamlReadRulesFromString(s)
			ok = err == nil && len(r.Rules) > 0
			var r2 me.Rules
			_ = json.Unmarshal(c.Text, &r2)
			var r3 me.Rule
			_ = json.Unmarshal(c.Text, &r3)
			var r4 me.Rules
			_ = bson.Unmarshal(c.Text, &r4)
		case "rules-file":
			must(os.WriteFile(name, c.Text, 0o644))
			r, err := me.YamlReadRulesFromFile(name)
			ok = err == nil && len(r.Rules) > 0
			_, _ = me.YamlReadRulesFromFileWithPredefinedStrings(name, me.PredefinedStringsAndLists{})
		case "rules-defs":
			d, err := me.YamlReadStringListsFromString("predefinedStrings:\n  a: b\npredefinedLists:\n  l: [a, '#a']\n")
			must(err)
			r, err := me.YamlReadRulesFromStringWithPredefinedStrings(s, d)
			ok = err == nil && len(r.Rules) > 0
		case "messages":
			m, err := me.YamlReadMessagesFromString(s)
			ok = err == nil && len(m.Messages) > 0
			_, _ = m.ToJson()
			a, err := me.YamlReadMessageAttributes(s)
			_, _ = a.ToJson()
			_ = err
			rs := allowAll()
			for i := range m.Messages {
				me.Check(&m.Messages[i], &rs)
			}
			me.Coverage(&m, &rs)
		case "messages-file":
			must(os.WriteFile(name, c.Text, 0o644))
			m, err := me.YamlReadMessagesFromFile(name)
			ok = err == nil && len(m.Messages) > 0
		case "definitions":
			d, err := me.YamlReadStringListsFromString(s)
			ok = err == nil && len(d.PredefinedStrings)+len(d.PredefinedLists) > 0
			if err == nil {
				rs := allowAll()
				_ = rs.Rules[0].SetPredefinedStringsAndLists(d)
			}
		case "definitions-file":
			must(os.WriteFile(name, c.Text, 0o644))
			d, err := me.YamlReadStringListsFromFile(name)
			ok = err == nil && len(d.PredefinedStrings)+len(d.PredefinedLists) > 0
		}
	})
	x.nt(ok)
	x.class("loads %v", ok)
	if err != nil {
		return violated("%v\ntext: %s", err, short(c.Text))
	}
	return nil
}

func allowAll() me.Rules {
	r, err := loadRules([]RuleAST{anyRule("allow", leaf(Cond{Attr: "senderLabel[app]", Method: "EQ", Val: Val{Kind: "str", S: "a"}})), anyRule("block", nil)}, "yaml")
	must(err)
	return r
}

// caseDeep is a very deep or very wide tree.
type caseDeep struct {
	Ops  []string `json:"ops"`
	N    int      `json:"n"`
	Wide bool     `json:"wide"`
	Kind string   `json:"kind"`
	Doc  any      `json:"doc"`
}

func checkDeep(c caseDeep, x *ctx) error {
	x.nt(c.N >= 20)
	x.class("wide %v", c.Wide)
	var g any = obj{{Key: "attribute", Value: "jsonpath:$.s0"}, {Key: "method", Value: "EX"}}
	for i := 0; i < c.N; i++ {
		switch op := c.Ops[i%len(c.Ops)]; {
		case c.Wide:
			l := []any{}
			for j := 0; j < c.N; j++ {
				l = append(l, obj{{Key: "attribute", Value: fmt.Sprintf("jsonpath:$.s%d", j)}, {Key: "method", Value: "EQ"}, {Key: "value", Value: fmt.Sprint(j)}})
			}
			g = obj{{Key: "OR", Value: l}}
			i = c.N
		case op == opNot:
			g = obj{{Key: opNot, Value: g}}
		case op == opAny || op == opAll:
			g = obj{{Key: op, Value: obj{{Key: "parentJsonpathAttribute", Value: "jsonpath:$RELATIVE.l0[:]"}, {Key: "condition", Value: g}}}}
		default:
			g = obj{{Key: op, Value: []any{g, obj{{Key: "attribute", Value: "domain"}, {Key: "method", Value: "EQ"}, {Key: "value", Value: "a"}}}}}
		}
	}
	r := setConds(anyRule("block", nil).generic(), g)
	doc := obj{{Key: "rules", Value: []any{r}}}
	text := toYAML(doc)
	if c.Kind != "yaml" {
		text = toJSON(doc)
	}
	rules, lerr, err := offerText(c.Kind, []byte(text))
	if err != nil {
		return err
	}
	x.class("loads %v", lerr == nil)
	if lerr != nil {
		return nil
	}
	m := Msg{HasDoc: true, Doc: c.Doc}
	var msgs []*me.MessageAttributes
	for _, mode := range []string{docRaw, docIntf} {
		msgs = append(msgs, buildMsg(&m, mode))
	}
	return exercise(&rules.Rules[0], msgs)
}

// caseFail: a rule whose preparation fails after it succeeded.
type caseFail struct {
	Rule   RuleAST `json:"rule"`
	Good   Defs    `json:"good"`
	Msg    Msg     `json:"msg"`
	Loader string  `json:"loader"`
	Steps  []bool  `json:"steps"` // true: with the definitions, false: without
}

func init() {
	rules["C15"] = "non-trivial: the text loads, so that the rule is also validated, prepared, written, translated and checked (deep trees: at least 20 levels or children)"
	for _, f := range []struct {
		mode string
		n    int
	}{{"values", 7000}, {"structure", 5000}, {"documents", 3500}, {"texts", 2500}} {
		mode := f.mode
		addFacet("C15", mode, f.n, func(t *rapid.T) caseWild { return genFuzz(t, mode) }, checkWild)
	}
	addFacet("C15", "loaders", 5000, func(t *rapid.T) caseText {
		c := caseText{What: pick(t, "rules", "rules-file", "rules-defs", "messages", "messages", "messages-file", "definitions", "definitions", "definitions-file")}
		o := genOpt{odd: true, attrs: true}
		var g any
		switch {
		case strings.HasPrefix(c.What, "rules"):
			g = wildRules(t, o, genDoc(t, o))
		case strings.HasPrefix(c.What, "messages"):
			l := []any{}
			for i, n := 0, between(t, 1, 3); i < n; i++ {
				l = append(l, genLoadMsg(t, i).generic())
			}
			g = obj{{Key: "messages", Value: l}}
			if chance(t, 20) {
				g = l[0]
			}
		default:
			d := genDefs(t, nil)
			so, lo := obj{}, obj{}
			for _, k := range sortedKeys(d.Strings) {
				so = append(so, kv{Key: k, Value: d.Strings[k]})
			}
			for _, k := range sortedKeys(d.Lists) {
				l := []any{}
				for _, e := range d.Lists[k] {
					l = append(l, e)
				}
				lo = append(lo, kv{Key: k, Value: l})
			}
			g = obj{{Key: "predefinedStrings", Value: so}, {Key: "predefinedLists", Value: lo}}
		}
		if chance(t, 60) {
			for i, n := 0, between(t, 1, 3); i < n; i++ {
				g = mutateGeneric(t, g)
			}
		}
		if chance(t, 70) {
			c.Text = []byte(toYAML(g))
		} else {
			c.Text = []byte(toJSON(g))
		}
		if chance(t, 50) {
			c.Text = mutateBytes(t, c.Text, between(t, 1, 5))
		}
		return c
	}, checkText)
	addFacet("C15", "deep", 150, func(t *rapid.T) caseDeep {
		c := caseDeep{N: between(t, 1, 60), Wide: chance(t, 25), Kind: pick(t, "yaml", "json", "bson")}
		if chance(t, 30) {
			c.N = between(t, 60, 250)
		}
		for i, n := 0, between(t, 1, 4); i < n; i++ {
			c.Ops = append(c.Ops, pick(t, opAnd, opOr, opNot, opAny, opAll))
		}
		var d any = map[string]any{"s0": "a"}
		for i, n := 0, between(t, 0, 60); i < n; i++ {
			d = map[string]any{"s0": "a", "l0": []any{d}}
		}
		c.Doc = d
		return c
	}, checkDeep)
	addFacet("C15", "unprepared", 2500, func(t *rapid.T) caseFail {
		c := caseFail{Loader: styled(t, loaders...)}
		o := genOpt{odd: true, attrs: true, ret: chance(t, 30)}
		doc := genDoc(t, o)
		c.Msg = withDoc(t, genMsg(t), doc)
		c.Rule = genFrame(t, 0, true)
		c.Rule.Tree = genTree(t, scope{doc: doc}, between(t, 0, 3), o)
		c.Good = Defs{Strings: map[string]string{"name": "*"}, Lists: map[string][]string{}}
		switch between(t, 0, 2) {
		case 0:
			c.Rule.Sender = Party{Type: "workload", Names: []string{"#name"}}
		case 1:
			c.Rule.Receiver = Party{Type: "workload", Names: []string{"#name"}}
		case 2:
			n := leaf(Cond{Attr: "senderLabel[app]", Method: "NEX", Val: Val{Kind: "ref", S: "name"}})
			c.Rule.Tree = &Node{Op: opOr, Kids: []*Node{c.Rule.Tree, n}}
		}
		for i, n := 0, between(t, 2, 5); i < n; i++ {
			c.Steps = append(c.Steps, pick(t, true, false))
		}
		return c
	}, func(c caseFail, x *ctx) error {
		var r me.Rules
		var lerr error
		if err := guarded("loading", func() { r, lerr = loadRules([]RuleAST{c.Rule}, c.Loader) }); err != nil {
			return err
		}
		if lerr != nil {
			return violated("a valid rule is rejected: %v", lerr)
		}
		good, err := engineDefs(c.Good, false, "")
		if err != nil {
			return violated("valid definitions are rejected: %v", err)
		}
		rule := &r.Rules[0]
		var first *int
		failed := false
		for i, ok := range c.Steps {
			d := me.PredefinedStringsAndLists{}
			if ok {
				d = good
			}
			var perr error
			if err := guarded("preparation", func() { perr = rule.SetPredefinedStringsAndLists(d) }); err != nil {
				return err
			}
			if (perr == nil) != ok {
				return violated("step %d: preparation with the definitions %v gives the error %v", i, ok, perr)
			}
			for j := 0; j < 2; j++ {
				code, _, err := checkOne(buildMsg(&c.Msg, docRaw), rule)
				if err != nil {
					return err
				}
				if !ok && code > 0 {
					return violated("step %d: the rule cannot be prepared and applies (%d)", i, code)
				}
				if ok && first == nil {
					first = &code
				}
				if ok && *first != code {
					return violated("step %d: the result is %d, before a failed preparation it was %d", i, code, *first)
				}
				x.class("prepared %v applies %v", ok, code > 0)
				failed = failed || !ok
				x.nt(failed && ok && code > 0)
			}
		}
		return nil
	})
}
