package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net"
	"reflect"
	"sort"
	"strconv"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"pgregory.net/rapid"
)

// Laws that relate several outcomes of the engine and need no model of it:
// C20 (what a rule does not mention), C21 (methods and their negations, order of
// numbers), C22 (widening and narrowing).

// ---------------------------------------------------------------- C20

type irrEdit struct {
	Kind string `json:"kind"`
	At   int    `json:"at,omitempty"`
	S    string `json:"s,omitempty"`
	V    any    `json:"v,omitempty"`
}

type caseIrr struct {
	Rule   RuleAST   `json:"rule"`
	Msg    Msg       `json:"msg"`
	Edits  []irrEdit `json:"edits"`
	Loader string    `json:"loader"`
}

// mentions lists what of the message a rule speaks about.
func mentions(r RuleAST) map[string]bool {
	m := map[string]bool{}
	if r.Sender.Type == "subnet" {
		m["srcip"] = true
	} else {
		m["src"] = true
	}
	switch r.Receiver.Type {
	case "subnet":
		m["dstip"] = true
	case "hostname":
		m["host"] = true
	default:
		m["dst"] = true
	}
	switch r.Proto {
	case "*":
	case "tcp":
		m["port"], m["proto"] = true, true
	default:
		m["proto"], m["path"] = true, true
		if r.ResType != "*" {
			m["type"] = true
		}
	}
	if len(r.Ops) != 1 || r.Ops[0] != "*" {
		m["method"] = true
	}
	r.Tree.walk(func(n *Node) {
		if n.Cond == nil || n.Cond.Path != nil {
			return
		}
		m[n.Cond.Attr] = true
		switch n.Cond.Val.Kind {
		case "rlabel":
			m["receiverLabel["+n.Cond.Val.S+"]"] = true
		case "rattr":
			m["$receiver."+n.Cond.Val.S] = true
		}
	})
	return m
}

var msgFields = []string{"id", "src", "dst", "srcip", "dstip", "port", "path", "host", "method", "proto", "type", "payloadSize", "requestUseragent",
	"encryptionType", "encryptionVersion", "domain", "$sender.namespace", "$receiver.namespace", "$sender.cluster", "$receiver.cluster", "utcHoursFromMidnight"}

func setMsgField(m *Msg, f, s string, n int) {
	switch f {
	case "id":
		m.ID = s
	case "src":
		m.Src = s
	case "dst":
		m.Dst = s
	case "srcip":
		m.SrcIP = addresses[n%len(addresses)]
	case "dstip":
		m.DstIP = addresses[n%len(addresses)]
	case "port":
		m.Port = s
	case "path":
		m.Path = s
	case "host":
		m.Host = s
	case "method":
		m.Method = s
	case "proto":
		m.Proto = s
	case "type":
		m.Type = s
	case "payloadSize":
		m.Size = int64(n) * 1000
	case "requestUseragent":
		m.UA = s
	case "encryptionType":
		m.EncType = s
	case "encryptionVersion":
		v := float64(n) / 10
		m.EncVer = &v
		if n%4 == 0 {
			m.EncVer = nil
		}
	case "domain":
		m.Domain = s
	case "$sender.namespace":
		m.SrcNS = s
	case "$receiver.namespace":
		m.DstNS = s
	case "$sender.cluster":
		m.SrcCl = s
	case "$receiver.cluster":
		m.DstCl = s
	case "utcHoursFromMidnight":
		m.Sec = n * 1000 % 86400
	}
}

// eachPath visits every path of a tree.
func eachPath(n *Node, f func(p Path, parent bool)) {
	n.walk(func(k *Node) {
		for _, p := range k.Parents {
			f(p, true)
		}
		for _, p := range k.Ret {
			f(p, false)
		}
		if k.Cond != nil {
			if k.Cond.Path != nil {
				f(*k.Cond.Path, false)
			}
			for _, p := range k.Cond.Ret {
				f(p, false)
			}
		}
	})
}

// objectsOf lists the objects of a document that have fields (not those that are maps
// from names to things, whose entries a rule may go through).
func objectsOf(v any, kind byte, out *[]map[string]any) {
	switch x := v.(type) {
	case map[string]any:
		if kind != 'm' && kind != 'd' && len(x) > 0 {
			*out = append(*out, x)
		}
		for _, k := range sortedKeys(x) {
			objectsOf(x[k], kindOf(k, kind), out)
		}
	case []any:
		for _, e := range x {
			objectsOf(e, 'o', out)
		}
	}
}

// applyIrr makes an edit that does not touch anything the rule mentions; false if
// there is nothing to edit.
func applyIrr(r RuleAST, m *Msg, e irrEdit) bool {
	men := mentions(r)
	switch e.Kind {
	case "field":
		f := msgFields[e.At%len(msgFields)]
		if men[f] {
			return false
		}
		setMsgField(m, f, e.S, e.At)
		return true
	case "label":
		side, labels := "senderLabel", &m.SrcLabels
		if e.At%2 == 1 {
			side, labels = "receiverLabel", &m.DstLabels
		}
		key := []string{"app", "tier", "x-y", "ap", "APP", "zz"}[e.At/2%6]
		if men[side+"["+key+"]"] {
			return false
		}
		c := map[string]string{}
		for k, v := range *labels {
			c[k] = v
		}
		if e.At%5 == 0 {
			delete(c, key)
		} else {
			c[key] = e.S
		}
		*labels = c
		return true
	case "doc-add":
		if !m.HasDoc {
			return false
		}
		rootOnly := false
		eachPath(r.Tree, func(p Path, parent bool) {
			if !parent {
				return
			}
			if len(p.Steps) == 0 {
				rootOnly = true
				return
			}
			last := p.Steps[len(p.Steps)-1]
			if last.All || last.I != nil {
				return
			}
			for _, k := range labelKeys {
				if last.K == k {
					rootOnly = true
				}
			}
			if strings.IndexByte("ltwvymd", last.K[0]) < 0 {
				rootOnly = true
			}
		})
		var objs []map[string]any
		objectsOf(m.Doc, 'o', &objs)
		root, ok := m.Doc.(map[string]any)
		if !ok {
			return false
		}
		o := root
		if len(objs) > 0 && !rootOnly {
			o = objs[e.At%len(objs)]
		}
		o["zz"+e.S] = deepCopy(e.V)
		return true
	case "doc-drop":
		root, ok := m.Doc.(map[string]any)
		if !m.HasDoc || !ok || len(root) < 2 {
			return false
		}
		used, all := map[string]bool{}, false
		eachPath(r.Tree, func(p Path, parent bool) {
			for _, s := range p.Steps {
				if s.Deep {
					all = true
				}
			}
			if p.relative() {
				return
			}
			if len(p.Steps) == 0 {
				all = true
				return
			}
			used[p.Steps[0].K] = true
		})
		keys := sortedKeys(root)
		k := keys[e.At%len(keys)]
		if all || used[k] {
			return false
		}
		delete(root, k)
		return true
	}
	panic(e.Kind)
}

// withoutZZ removes the inserted keys from returned values.
func withoutZZ(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := map[string]any{}
		for k, e := range x {
			if !strings.HasPrefix(k, "zz") {
				o[k] = withoutZZ(e)
			}
		}
		return o
	case []any:
		l := []any{}
		for _, e := range x {
			l = append(l, withoutZZ(e))
		}
		return l
	}
	return v
}

func lookZZ(r *me.Rule, m Msg, ord bool) ([]seen, error) {
	s, err := look(r, []Msg{m}, true)
	if err != nil {
		return nil, err
	}
	for i := range s {
		for j, d := range s[i].Data {
			var v any
			must(json.Unmarshal([]byte(d), &v))
			s[i].Data[j] = canon(withoutZZ(v))
		}
		if !ord {
			sort.Strings(s[i].Data)
		}
	}
	return s, nil
}

func checkIrr(c caseIrr, x *ctx) error {
	r, err := loadOne(c.Rule, c.Loader)
	if err != nil {
		return err
	}
	ord := ruleOrd(c.Rule)
	before, err := lookZZ(r, c.Msg, ord)
	if err != nil {
		return err
	}
	m := c.Msg
	m.Doc = deepCopy(c.Msg.Doc)
	done := []string{}
	for _, e := range c.Edits {
		if applyIrr(c.Rule, &m, e) {
			done = append(done, e.Kind)
			x.class("%s", e.Kind)
		}
	}
	x.class("applies %v", anyApplies(before))
	x.nt(len(done) > 0)
	after, err := lookZZ(r, m, ord)
	if err != nil {
		return err
	}
	if !reflect.DeepEqual(before, after) {
		return violated("a change of what the rule does not mention (%s) changes the outcome: %v becomes %v\n%s\n%s\n%s", strings.Join(done, ", "), before, after, toYAML(c.Rule.generic()), canon(c.Msg), canon(m))
	}
	return nil
}

var alikes = []string{"10*", "1*", "*", "?*", "::1", "10.0.0.1", "80*", "443", "ns:a", "a*", "h1*", "/a", "GET", "http", "prod", "*.*", "*:*", "x1"}

// wildAlike is a text that a pattern matches.
func wildAlike(t *rapid.T, pat string) string {
	return strings.NewReplacer("*", pick(t, "", "a", "1"), "?", "a").Replace(pat)
}

var irrValues = []any{"x", "a", 1.0, nil, true, "", []any{}, map[string]any{}, map[string]any{"zz1": "y"}, `"s0":"a"`, `}],"l0":[{"s0":"a"}]`,
	[]any{[]any{map[string]any{"zz1": 1.0}}}, `\`, `"`, "é", "[", "{", ",", []any{"]", "}"}, map[string]any{"zz": map[string]any{"zz": []any{"a", "b"}}}, "l0", "..s0"}

func init() {
	rules["C20"] = "non-trivial: at least one change of something the rule does not mention was made"
	addFacet("C20", "irrelevant", 9000, func(t *rapid.T) caseIrr {
		o := genOpt{attrs: true, odd: chance(t, 40), ret: chance(t, 30)}
		doc := genDoc(t, o)
		c := caseIrr{Loader: styled(t, loaders...), Rule: genFrame(t, 1, chance(t, 80))}
		if chance(t, 50) {
			c.Rule = anyRule(genDecision(t), nil)
		}
		c.Msg = genMsg(t)
		confuse := chance(t, 35)
		if confuse { // the rule names what another attribute of the message could hold
			c.Rule = anyRule(genDecision(t), nil)
			s := pick(t, alikes...)
			switch between(t, 0, 5) {
			case 0:
				c.Rule.Sender = Party{Type: pick(t, "workload", "*"), Names: []string{s}}
				c.Msg.Src = pick(t, "", "", c.Msg.Src)
			case 1:
				c.Rule.Receiver = Party{Type: pick(t, "workload", "hostname", "*"), Names: []string{s}}
				c.Msg.Dst, c.Msg.Host = pick(t, "", c.Msg.Dst), pick(t, "", c.Msg.Host)
			case 2:
				c.Rule.Proto, c.Rule.ResType, c.Rule.ResNames = pick(t, "http", "tcp", "*"), "*", []string{s}
				if c.Rule.Proto != "http" {
					c.Rule.ResType = pick(t, "*", "port", "path", "kafkaTopic", "consumerGroup")
				}
				c.Msg.Proto = pick(t, "http", "tcp")
				c.Msg.Path, c.Msg.Port = pick(t, "", c.Msg.Path), pick(t, "", c.Msg.Port)
			case 3:
				c.Rule.Ops = []string{s}
				c.Msg.Method = pick(t, "", "", c.Msg.Method)
			default:
				a := pick(t, "encryptionType", "domain", "requestUseragent", "senderLabel[app]", "receiverLabel[app]", "$sender.namespace", "$receiver.namespace", "$sender.cluster", "$receiver.cluster")
				c.Rule.Tree = leaf(Cond{Attr: a, Method: pick(t, "EQ", "NEQ"), Val: Val{Kind: "str", S: s}})
				if chance(t, 70) {
					setMsgField(&c.Msg, a, "", 0)
					if strings.HasPrefix(a, "senderLabel") {
						c.Msg.SrcLabels = map[string]string{"tier": "a"}
					}
					if strings.HasPrefix(a, "receiverLabel") {
						c.Msg.DstLabels = map[string]string{"tier": "a"}
					}
				}
			}
			doc := any(map[string]any{"s0": "a"})
			c.Msg = withDoc(t, c.Msg, doc)
			for i, n := 0, between(t, 2, 8); i < n; i++ {
				e := irrEdit{Kind: pick(t, "field", "field", "field", "label"), At: between(t, 0, 60)}
				e.S = wildAlike(t, s)
				c.Edits = append(c.Edits, e)
			}
			return c
		}
		if chance(t, 90) {
			c.Msg = withDoc(t, c.Msg, doc)
		}
		if chance(t, 85) {
			c.Rule.Tree = genTree(t, scope{doc: doc}, between(t, 0, 3), o)
		}
		for i, n := 0, between(t, 1, 5); i < n; i++ {
			e := irrEdit{Kind: pick(t, "field", "field", "label", "doc-add", "doc-add", "doc-drop"), At: between(t, 0, 60)}
			switch e.Kind {
			case "doc-add":
				e.S = pick(t, "", "1", "s0", "-2", ".x")
				e.V = pick(t, irrValues...)
			default:
				e.S = pick(t, "", "a", "zz", "prod", "GET", "80", "/a", "*", "http", "ns:a", "abc", "path")
			}
			c.Edits = append(c.Edits, e)
		}
		return c
	}, checkIrr)
}

// ---------------------------------------------------------------- C21

var negations = map[string]string{"EQ": "NEQ", "NEQ": "EQ", "NE": "EQ", "RE": "NRE", "NRE": "RE", "IN": "NIN", "NIN": "IN", "IS": "NIN", "EX": "NEX", "NEX": "EX",
	"LT": "GE", "GE": "LT", "GT": "LE", "LE": "GT"}

type caseNeg struct {
	Cond   Cond   `json:"cond"`
	Lower  bool   `json:"lower,omitempty"` // spelling of the negated method
	Msg    Msg    `json:"msg"`
	Wrap   int    `json:"wrap"`
	Loader string `json:"loader"`
}

// ask gives the truth of one condition for every form of the document.
func ask(c Cond, m *Msg, wrap int, loader string) ([]bool, error) {
	n := leaf(c)
	if wrap == 1 && c.Path != nil { // as the only element of a list
		cp := c
		cp.Path = &Path{Root: rootRel, Steps: append([]Step{}, c.Path.Steps...)}
		fixFirst(cp.Path.Steps, 4)
		n = &Node{Op: opAny, Parents: []Path{{Root: rootAbs, Steps: []Step{{K: "q"}}}}, Kids: []*Node{leaf(cp)}}
		mm := *m
		mm.Doc = map[string]any{"q": []any{m.Doc}}
		m = &mm
	}
	var out []bool
	for _, mode := range docModes(m) {
		got, _, err := runTree(n, m, mode, 0, loader)
		if err != nil {
			return nil, err
		}
		out = append(out, got)
	}
	return out, nil
}

func checkNeg(c caseNeg, x *ctx) error {
	meth := strings.ToUpper(c.Cond.Method)
	neg := c.Cond
	neg.Method = negations[meth]
	if c.Lower && meth != "IS" {
		neg.Method = strings.ToLower(neg.Method)
	}
	ex := c.Cond
	ex.Method, ex.Val = "EX", Val{Kind: "none"}
	attr := c.Cond.Attr
	exists := true
	switch {
	case c.Cond.Path != nil:
		l, err := ask(ex, &c.Msg, c.Wrap, c.Loader)
		if err != nil {
			return err
		}
		exists = l[0]
		for _, e := range l {
			if e != exists {
				return violated("the value exists: %v", l)
			}
		}
		if exists && strings.Contains("LT GE GT LE", meth) { // only numbers are ordered
			exists = false
			if res, _ := follow(c.Msg.Doc, c.Cond.Path.Steps); len(res) == 1 {
				s, ok := scalarText(res[0])
				_, num := parseNumber(s)
				_, isBool := res[0].(bool)
				exists = ok && num && !isBool
			}
		}
	case strings.HasPrefix(attr, "senderLabel["):
		_, exists = c.Msg.SrcLabels[attr[12:len(attr)-1]]
	case strings.HasPrefix(attr, "receiverLabel["):
		_, exists = c.Msg.DstLabels[attr[14:len(attr)-1]]
	case attr == "encryptionVersion":
		exists = c.Msg.EncVer != nil
	}
	if c.Cond.Val.Kind == "rlabel" {
		if _, ok := c.Msg.DstLabels[c.Cond.Val.S]; !ok {
			exists = false
		}
	}
	a, err := ask(c.Cond, &c.Msg, c.Wrap, c.Loader)
	if err != nil {
		return err
	}
	b, err := ask(neg, &c.Msg, c.Wrap, c.Loader)
	if err != nil {
		return err
	}
	x.class("%s/%s", meth, strings.ToUpper(neg.Method))
	x.class("exists %v", exists)
	x.nt(exists)
	for i := range a {
		switch {
		case exists || meth == "EX" || meth == "NEX":
			if a[i] == b[i] {
				return violated("%s and %s are both %v\n%s\n%s", c.Cond.Method, neg.Method, a[i], toYAML(condGeneric(&c.Cond, false)), canon(c.Msg))
			}
		default:
			if a[i] || b[i] {
				return violated("there is nothing to compare, but %s is %v and %s is %v\n%s\n%s", c.Cond.Method, a[i], neg.Method, b[i], toYAML(condGeneric(&c.Cond, false)), canon(c.Msg))
			}
		}
	}
	return nil
}

type caseOrder struct {
	V      []ordVal `json:"v"`
	Where  string   `json:"where"` // path, rel, payloadSize, utcHoursFromMidnight, encryptionVersion
	Lower  bool     `json:"lower,omitempty"`
	Style  int      `json:"style"`
	Loader string   `json:"loader"`
}

type ordVal struct {
	S   string  `json:"s"`             // text, with unit
	N   float64 `json:"n,omitempty"`   // used instead of S if Num
	Num bool    `json:"num,omitempty"` // a JSON number in the document
}

// rel compares the value i (in the message) with the value j (in the rule): -1, 0 or 1.
func (c caseOrder) rel(i, j int) (int, error) {
	m := Msg{Style: c.Style}
	val := Val{Kind: "str", S: c.V[j].S}
	cond := func(meth string) Cond {
		if c.Lower {
			meth = strings.ToLower(meth)
		}
		if c.Where == "path" || c.Where == "rel" {
			return Cond{Path: &Path{Root: rootAbs, Steps: []Step{{K: "a"}, {K: "v"}}}, Method: meth, Val: val}
		}
		return Cond{Attr: c.Where, Method: meth, Val: val}
	}
	wrap := 0
	switch c.Where {
	case "path", "rel":
		var v any = c.V[i].S
		if c.V[i].Num {
			v = c.V[i].N
		}
		m.HasDoc, m.Doc = true, map[string]any{"a": map[string]any{"v": v}}
		if c.Where == "rel" {
			wrap = 1
		}
	case "payloadSize":
		m.Size = int64(c.V[i].N)
	case "encryptionVersion":
		f := c.V[i].N
		m.EncVer = &f
	case "utcHoursFromMidnight":
		m.Sec = int(c.V[i].N * 3600)
	}
	truth := map[string]bool{}
	for _, meth := range []string{"LT", "LE", "EQ", "NEQ", "NE", "GE", "GT"} {
		if c.Where == "encryptionVersion" && strings.HasPrefix(meth, "N") {
			continue
		}
		l, err := ask(cond(meth), &m, wrap, c.Loader)
		if err != nil {
			return 0, err
		}
		for _, e := range l {
			if e != l[0] {
				return 0, violated("%v %s %v: %v", c.V[i], meth, c.V[j], l)
			}
		}
		truth[meth] = l[0]
	}
	if c.Where == "encryptionVersion" {
		truth["NEQ"], truth["NE"] = !truth["EQ"], !truth["EQ"]
	}
	n, r := 0, 0
	for meth, v := range map[string]int{"LT": -1, "EQ": 0, "GT": 1} {
		if truth[meth] {
			n++
			r = v
		}
	}
	if n != 1 || truth["LE"] != (r <= 0) || truth["GE"] != (r >= 0) || truth["NEQ"] != (r != 0) || truth["NE"] != (r != 0) {
		return 0, violated("%s: %v compared with %v: %s", c.Where, c.V[i], c.V[j], canon(truth))
	}
	return r, nil
}

func checkOrder(c caseOrder, x *ctx) error {
	n := len(c.V)
	r := make([][]int, n)
	eq := 0
	for i := range r {
		r[i] = make([]int, n)
		for j := range r[i] {
			var err error
			if r[i][j], err = c.rel(i, j); err != nil {
				return err
			}
			if i != j && r[i][j] == 0 {
				eq++
			}
		}
	}
	x.class("%s", c.Where)
	x.class("equal pairs %v", eq > 0)
	for i := range r {
		if r[i][i] != 0 {
			return violated("%s: %v is not equal to itself", c.Where, c.V[i])
		}
		for j := range r[i] {
			x.nt(c.V[i].S != c.V[j].S)
			if r[i][j] != -r[j][i] {
				return violated("%s: %v against %v is %d, the other way round %d", c.Where, c.V[i], c.V[j], r[i][j], r[j][i])
			}
			for k := range r {
				if r[i][j] <= 0 && r[j][k] <= 0 && (r[i][k] > 0 || r[i][k] == 0 && (r[i][j] < 0 || r[j][k] < 0)) {
					return violated("%s: the order of %v, %v and %v is not transitive", c.Where, c.V[i], c.V[j], c.V[k])
				}
			}
		}
	}
	return nil
}

func init() {
	rules["C21"] = "non-trivial: 'negation': the value that is compared exists; 'order': at least two different values are compared"
	addFacet("C21", "negation", 9000, func(t *rapid.T) caseNeg {
		o := genOpt{odd: chance(t, 50), noDeep: true}
		c := caseNeg{Lower: chance(t, 20), Wrap: between(t, 0, 1), Loader: styled(t, loaders...), Msg: genMsg(t)}
		if chance(t, 35) {
			c.Cond = genAttrCond(t, nil)
			for strings.EqualFold(c.Cond.Attr, "true") || strings.EqualFold(c.Cond.Attr, "false") {
				c.Cond = Cond{Attr: "domain", Method: "EQ", Val: Val{Kind: "str", S: genGlob(t, labelValues)}}
			}
			if c.Cond.Attr == "encryptionVersion" && strings.EqualFold(c.Cond.Method, "EQ") {
				c.Cond.Method = "GT"
			}
			return c
		}
		doc := genDoc(t, o)
		c.Msg = withDoc(t, c.Msg, doc)
		c.Cond = genPathCond(t, scope{doc: doc}, o)
		if c.Cond.Path.Root == rootDot {
			c.Cond.Path.Root = rootAbs
		}
		return c
	}, checkNeg)
	addFacet("C21", "order", 1000, func(t *rapid.T) caseOrder {
		c := caseOrder{Lower: chance(t, 15), Style: between(t, 0, 15), Loader: styled(t, loaders...), Where: pick(t, "path", "path", "path", "rel", "rel", "payloadSize", "utcHoursFromMidnight", "encryptionVersion")}
		for i, n := 0, between(t, 2, 4); i < n; i++ {
			var v ordVal
			switch c.Where {
			case "payloadSize":
				v.N = float64(between(t, 0, 5000))
				if chance(t, 40) {
					v.N = pick(t, 0.0, 1, 1000, 1024, 4294967296, 2000)
				}
				v.S = fmt.Sprintf("%.0f", v.N)
				switch {
				case v.N == 1024 && chance(t, 50):
					v.S = "1Ki"
				case v.N == 1000 && chance(t, 50):
					v.S = "1K"
				case chance(t, 10):
					v.S += ".0"
				}
			case "utcHoursFromMidnight", "encryptionVersion":
				v.N = float64(between(t, 0, 23*4)) / 4
				v.S = fmt.Sprint(v.N)
			default:
				switch between(t, 0, 2) {
				case 0:
					v.S = genUnitString(t)
				case 1:
					v.S = genNumText(t)
				default:
					v.N = float64(between(t, -2000, 200000)) / pick(t, 1.0, 1, 2, 4, 1000)
					v.Num = true
					v.S = fmt.Sprint(v.N)
				}
			}
			c.V = append(c.V, v)
		}
		if last := c.V[len(c.V)-1]; c.Where != "payloadSize" && c.Where != "utcHoursFromMidnight" && chance(t, 35) {
			if f, err := strconv.ParseFloat(last.S, 64); err == nil {
				last.N = neighbour(t, f)
				last.S = strconv.FormatFloat(last.N, 'f', -1, 64)
				c.V = append(c.V, last)
			}
		}
		return c
	}, checkOrder)
}

// ---------------------------------------------------------------- C22

type monoEdit struct {
	Kind string `json:"kind"`
	At   int    `json:"at"`
	S    string `json:"s,omitempty"`
	Tree *Node  `json:"tree,omitempty"`
	P    *Path  `json:"p,omitempty"`
	N    int    `json:"n,omitempty"` // this many more elements that match nothing
}

type caseMono struct {
	Rule   RuleAST  `json:"rule"`
	Msg    Msg      `json:"msg"`
	Edit   monoEdit `json:"edit"`
	Loader string   `json:"loader"`
}

// apply makes the edit and tells its direction: 1 the rule can only apply more often,
// -1 less often, 0 not applicable here.
func (e monoEdit) apply(r *RuleAST) int {
	switch e.Kind {
	case "sender":
		r.Sender.Names = e.more(r.Sender.Names)
		return 1
	case "receiver":
		r.Receiver.Names = e.more(r.Receiver.Names)
		return 1
	case "resource":
		r.ResNames = e.more(r.ResNames)
		return 1
	case "operation":
		if len(r.Ops) == 1 && (strings.EqualFold(r.Ops[0], "read") || strings.EqualFold(r.Ops[0], "write")) {
			return 0 // a group only when alone
		}
		r.Ops = e.more(r.Ops)
		return 1
	case "any-sender":
		r.Sender = Party{Type: "workload", Names: []string{"*"}}
		return 1
	case "any-receiver":
		r.Receiver = Party{Type: "workload", Names: []string{"*"}}
		return 1
	case "any-protocol":
		r.Proto = "*"
		return 1
	case "any-type":
		if r.Proto == "tcp" {
			return 0
		}
		r.ResType = "*"
		return 1
	case "any-operation":
		r.Ops = []string{"*"}
		return 1
	case "no-conditions":
		r.Tree = nil
		return 1
	}
	if r.Tree == nil {
		return 0
	}
	type at struct {
		n   *Node
		pol int
	}
	var nodes []at
	var visit func(n *Node, pol int)
	visit = func(n *Node, pol int) {
		nodes = append(nodes, at{n, pol})
		if n.Op == opNot {
			pol = -pol
		}
		for _, k := range n.Kids {
			visit(k, pol)
		}
	}
	visit(r.Tree, 1)
	var fit []at
	for _, a := range nodes {
		ok := false
		switch e.Kind {
		case "add-child":
			ok = a.n.Op == opAnd || a.n.Op == opOr
		case "drop-child":
			ok = (a.n.Op == opAnd || a.n.Op == opOr) && len(a.n.Kids) > 1
		case "add-parent":
			ok = (a.n.Op == opAny || a.n.Op == opAll) && a.n.Parents[0].Root == e.P.Root
		case "and-with", "or-with":
			ok = true
		case "add-element":
			ok = a.n.Cond != nil && a.n.Cond.Val.Kind == "list"
		case "add-alternative":
			ok = a.n.Cond != nil && a.n.Cond.Val.Kind == "re"
		case "threshold":
			if a.n.Cond != nil && a.n.Cond.Val.Kind == "num" {
				f, nerr := strconv.ParseFloat(a.n.Cond.Val.S, 64)
				m := strings.ToUpper(a.n.Cond.Method)
				// larger numbers plus something would be rounded
				ok = nerr == nil && math.Abs(f) < 1<<52 && (m == "LT" || m == "LE" || m == "GT" || m == "GE")
			}
		default:
			panic(e.Kind)
		}
		if ok {
			fit = append(fit, a)
		}
	}
	if len(fit) == 0 {
		return 0
	}
	n, pol := fit[e.At%len(fit)].n, fit[e.At%len(fit)].pol
	switch e.Kind {
	case "add-child":
		i := e.At % (len(n.Kids) + 1)
		n.Kids = append(n.Kids[:i:i], append([]*Node{e.Tree}, n.Kids[i:]...)...)
		if n.Op == opAnd {
			return -pol
		}
		return pol
	case "drop-child":
		i := e.At % len(n.Kids)
		n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
		if n.Op == opAnd {
			return pol
		}
		return -pol
	case "and-with", "or-with":
		if n.Cond == nil && len(n.Ret) > 0 {
			return 0
		}
		c := *n
		op := opAnd
		if e.Kind == "or-with" {
			op = opOr
		}
		*n = Node{Op: op, Kids: []*Node{&c, e.Tree}}
		if e.At%2 == 1 {
			n.Kids = []*Node{e.Tree, &c}
		}
		if op == opAnd {
			return -pol
		}
		return pol
	case "add-parent":
		n.Parents = append(n.Parents, *e.P)
		if n.Op == opAll {
			return -pol
		}
		return pol
	case "add-element":
		n.Cond.Val.List = e.more(n.Cond.Val.List)
		if strings.EqualFold(n.Cond.Method, "NIN") {
			return -pol
		}
		return pol
	case "add-alternative":
		n.Cond.Val.S = n.Cond.Val.S + "|" + e.S
		if strings.EqualFold(n.Cond.Method, "NRE") {
			return -pol
		}
		return pol
	case "threshold":
		f, _ := strconv.ParseFloat(n.Cond.Val.S, 64)
		by := float64(1 + e.At%7)
		m := strings.ToUpper(n.Cond.Method)
		if e.At%2 == 1 {
			by = -by
		}
		n.Cond.Val.S, n.Cond.Val.AsNum = strconv.FormatFloat(f+by, 'f', -1, 64), false
		if (by > 0) == (m == "LT" || m == "LE") {
			return pol
		}
		return -pol
	}
	return 0
}

func (e monoEdit) more(list []string) []string {
	list = insert(list, e.At, e.S)
	for i := 0; i < e.N; i++ {
		s := fmt.Sprintf("zz%d", i)
		if _, _, err := net.ParseCIDR(e.S); err == nil || net.ParseIP(e.S) != nil {
			s = fmt.Sprintf("203.0.113.%d", i)
		}
		list = insert(list, e.At+i*3, s)
	}
	return list
}

func insert(list []string, at int, s string) []string {
	i := at % (len(list) + 1)
	return append(list[:i:i], append([]string{s}, list[i:]...)...)
}

func checkMono(c caseMono, x *ctx) error {
	other := cloneRule(c.Rule)
	dir := c.Edit.apply(&other)
	x.class("%s", c.Edit.Kind)
	if dir == 0 {
		return nil
	}
	a, err := loadOne(c.Rule, c.Loader)
	if err != nil {
		return err
	}
	b, err := loadOne(other, c.Loader)
	if err != nil {
		return err
	}
	la, err := look(a, []Msg{c.Msg}, true)
	if err != nil {
		return err
	}
	lb, err := look(b, []Msg{c.Msg}, true)
	if err != nil {
		return err
	}
	for i := range la {
		p, q := la[i].Code > 0, lb[i].Code > 0
		x.class("direction %d: %v to %v", dir, p, q)
		x.nt(p == (dir > 0))
		if dir > 0 && p && !q {
			return violated("the rule applies, but not after it was widened (%s)\n%s\n%s", c.Edit.Kind, toYAML(c.Rule.generic()), toYAML(other.generic()))
		}
		if dir < 0 && !p && q {
			return violated("the rule does not apply, but it does after it was narrowed (%s)\n%s\n%s", c.Edit.Kind, toYAML(c.Rule.generic()), toYAML(other.generic()))
		}
	}
	return nil
}

type caseGrow struct {
	Tree   *Node  `json:"tree"` // over $.l0, possibly below NOTs
	Doc    any    `json:"doc"`
	New    any    `json:"new"`
	At     int    `json:"at"`
	Style  int    `json:"style"`
	Loader string `json:"loader"`
}

func checkGrow(c caseGrow, x *ctx) error {
	pol, q := 1, c.Tree
	for q.Op == opNot {
		pol, q = -pol, q.Kids[0]
	}
	abs := false
	eachPath(q.Kids[0], func(p Path, parent bool) { abs = abs || !p.relative() })
	if abs {
		return nil
	}
	if q.Op == opAll {
		pol = -pol
	}
	doc := deepCopy(c.Doc).(map[string]any)
	l, _ := doc["l0"].([]any)
	i := c.At % (len(l) + 1)
	doc["l0"] = append(l[:i:i], append([]any{c.New}, l[i:]...)...)
	ma, mb := Msg{HasDoc: true, Doc: c.Doc, Style: c.Style}, Msg{HasDoc: true, Doc: doc, Style: c.Style}
	for _, mode := range docModes(&ma) {
		a, _, err := runTree(c.Tree, &ma, mode, 0, c.Loader)
		if err != nil {
			return err
		}
		b, _, err := runTree(c.Tree, &mb, mode, 0, c.Loader)
		if err != nil {
			return err
		}
		x.class("direction %d: %v to %v", pol, a, b)
		x.nt(a == (pol > 0))
		if pol > 0 && a && !b || pol < 0 && !a && b {
			return violated("%s: a list with one more element turns %v into %v\n%s\n%s", mode, a, b, toYAML(c.Tree.generic()), canon(doc))
		}
	}
	return nil
}

func init() {
	rules["C22"] = "non-trivial: the rule applies and is widened, or does not apply and is narrowed"
	addFacet("C22", "rules", 9000, func(t *rapid.T) caseMono {
		o := genOpt{attrs: true, noRet: true}
		doc := genDoc(t, o)
		c := caseMono{Loader: styled(t, loaders...), Rule: genFrame(t, 1, chance(t, 60)), Msg: withDoc(t, genMsg(t), doc)}
		e := monoEdit{At: between(t, 0, 40), Kind: pick(t, "sender", "receiver", "resource", "operation", "any-sender", "any-receiver", "any-protocol", "any-type", "any-operation", "no-conditions",
			"add-child", "add-child", "drop-child", "drop-child", "and-with", "or-with", "add-parent", "add-parent", "add-element", "add-element", "add-alternative", "threshold", "threshold")}
		name := func(p Party, pool []string) string {
			switch p.Type {
			case "subnet":
				return pick(t, subnets...)
			case "hostname":
				return genGlob(t, hosts[:7])
			}
			return genGlob(t, pool)
		}
		inTree := false
		switch e.Kind {
		case "no-conditions", "add-child", "drop-child", "and-with", "or-with", "add-parent", "add-element", "add-alternative", "threshold":
			inTree = true
			if chance(t, 70) {
				c.Rule = anyRule(genDecision(t), nil)
			}
		}
		if !inTree && chance(t, 75) { // restricted by the edited field alone
			full := genFrame(t, 1, false)
			c.Rule = anyRule(full.Decision, nil)
			switch e.Kind {
			case "sender", "any-sender":
				c.Rule.Sender = full.Sender
			case "receiver", "any-receiver":
				c.Rule.Receiver = full.Receiver
			case "operation", "any-operation":
				c.Rule.Ops, c.Rule.OpSep = full.Ops, full.OpSep
			default:
				c.Rule.Proto, c.Rule.ResType, c.Rule.ResNames, c.Rule.ResSep = full.Proto, full.ResType, full.ResNames, full.ResSep
				if chance(t, 60) {
					c.Msg.Proto = full.Proto
				}
				if chance(t, 50) {
					c.Msg.Type = full.ResType
				}
			}
			if chance(t, 60) { // a message that it applies to, or nearly
				switch e.Kind {
				case "sender":
					if full.Sender.Type != "subnet" {
						c.Msg.Src = instance(t, pick(t, full.Sender.Names...))
					}
				case "receiver":
					if full.Receiver.Type == "hostname" {
						c.Msg.Host = instance(t, pick(t, full.Receiver.Names...))
					} else if full.Receiver.Type != "subnet" {
						c.Msg.Dst = instance(t, pick(t, full.Receiver.Names...))
					}
				case "operation":
					c.Msg.Method = instance(t, pick(t, full.Ops...))
				case "resource":
					c.Msg.Path = instance(t, pick(t, full.ResNames...))
					if full.Proto == "tcp" {
						c.Msg.Port = c.Msg.Path
					}
				}
			}
			if chance(t, 15) {
				pad := func(p *Party) {
					filler := "zz%d"
					if p.Type == "subnet" {
						filler = "203.0.113.%d"
					}
					p.Names = padded(t, p.Names, filler)
				}
				switch e.Kind {
				case "sender":
					pad(&c.Rule.Sender)
				case "receiver":
					pad(&c.Rule.Receiver)
				case "operation":
					c.Rule.Ops = padded(t, c.Rule.Ops, "zz%d")
				case "resource":
					c.Rule.ResNames = padded(t, c.Rule.ResNames, "/zz%d")
				}
			}
		}
		if inTree || chance(t, 20) {
			c.Rule.Tree = genTree(t, scope{doc: doc}, between(t, 0, 3), o)
			want := map[string]string{"add-element": "list", "add-alternative": "re", "threshold": "num"}[e.Kind]
			switch e.Kind {
			case "add-element", "add-alternative", "threshold":
				var cond Cond
				for i := 0; i < 12 && cond.Val.Kind != want; i++ {
					if chance(t, 60) {
						cond = genPathCond(t, scope{doc: doc}, o)
					} else {
						cond = genAttrCond(t, nil)
					}
				}
				n := leaf(cond)
				if chance(t, 30) {
					n = &Node{Op: opNot, Kids: []*Node{n}}
				}
				if chance(t, 40) {
					n = &Node{Op: pick(t, opAnd, opOr), Kids: []*Node{n, c.Rule.Tree}}
				}
				c.Rule.Tree = n
			case "add-child", "drop-child":
				if !c.Rule.Tree.has(opAnd, opOr) {
					c.Rule.Tree = &Node{Op: pick(t, opAnd, opOr), Kids: []*Node{c.Rule.Tree, genTree(t, scope{doc: doc}, 1, o)}}
				}
			case "add-parent":
				if !c.Rule.Tree.has(opAny, opAll) {
					c.Rule.Tree = genQuant(t, doc, between(t, 1, 2), o)
				}
			}
			if chance(t, 25) {
				c.Rule.Tree = &Node{Op: opNot, Kids: []*Node{c.Rule.Tree}}
			}
		}
		switch e.Kind {
		case "sender":
			e.S = name(c.Rule.Sender, workloads[:10])
		case "receiver":
			e.S = name(c.Rule.Receiver, workloads[:10])
		case "resource":
			e.S = genGlob(t, paths[:7])
		case "operation":
			e.S = genGlob(t, methodsPool[:12])
		case "add-element":
			e.S = pick(t, "a", "b", "ab", "zz", "10", "prod")
		case "add-alternative":
			e.S = pick(t, "a", "zz", "^b$", "[0-9]")
		case "add-child", "and-with", "or-with":
			e.Tree = genTree(t, scope{doc: doc}, between(t, 0, 1), o)
		case "add-parent":
			p, _ := genParent(t, rootAbs, doc, 'o', genOpt{noKV: true})
			e.P = &p
		}
		if e.S != "" && e.S != "*" && chance(t, 25) {
			e.N = between(t, 1, 20)
		}
		c.Edit = e
		return c
	}, checkMono)
	addFacet("C22", "lists", 5000, func(t *rapid.T) caseGrow {
		o := genOpt{noRet: true, odd: chance(t, 40)}
		doc := genDoc(t, o).(map[string]any)
		l := []any{}
		for i, n := 0, few(t, 0, 4); i < n; i++ {
			l = append(l, genObject(t, between(t, 0, 2), o))
		}
		doc["l0"] = l
		c := caseGrow{Doc: doc, New: genObject(t, between(t, 0, 2), o), At: between(t, 0, 5), Style: between(t, 0, 15), Loader: styled(t, loaders...)}
		in := scope{doc: doc, in: true, kind: 'o', rel: c.New}
		if len(l) > 0 && chance(t, 50) {
			in.rel = l[between(t, 0, len(l)-1)]
		}
		p := Path{Root: rootAbs, Steps: []Step{{K: "l0"}}}
		if chance(t, 50) {
			p.Steps = append(p.Steps, Step{All: true, Q: between(t, 0, 1)})
		}
		c.Tree = &Node{Op: pick(t, opAny, opAll), Parents: []Path{p}, Kids: []*Node{genTree(t, in, between(t, 0, 2), o)}}
		for i, n := 0, between(t, 0, 2); i < n; i++ {
			c.Tree = &Node{Op: opNot, Kids: []*Node{c.Tree}}
		}
		return c
	}, checkGrow)
}
