package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unicode"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
	"pgregory.net/rapid"
)

// Rules as stored things: C10 (store and load), C11 (hashes), C12 (predefined strings
// and lists), C13 (repeatability), C17 (coverage), C19 (loading).

// ---------------------------------------------------------------- common

// seen is everything a user can see of one rule on some messages.
type seen struct {
	Code  int
	Truth bool
	Data  []string
}

func look(r *me.Rule, msgs []Msg, ord bool) ([]seen, error) {
	var out []seen
	for i := range msgs {
		for _, mode := range docModes(&msgs[i]) {
			if mode == docBoth {
				continue
			}
			code, d, err := checkOne(buildMsg(&msgs[i], mode), r)
			if err != nil {
				return nil, err
			}
			ok, _, err := testConds(buildMsg(&msgs[i], mode), r)
			if err != nil {
				return nil, err
			}
			s := seen{code, ok, cleanData(d)}
			if !ord {
				sort.Strings(s.Data)
			}
			out = append(out, s)
		}
	}
	return out, nil
}

// queryText is the database query of a rule in a form that can be compared.
func queryText(r *me.Rule, base string) (string, error) {
	var res me.MaplToMongoResult
	var terr error
	if err := guarded("database translation", func() { res, terr = r.ToMongoQuery(base) }); err != nil {
		return "", err
	}
	if terr != nil {
		return "refused", nil
	}
	return canon([]any{res.Type, res.Query}), nil
}

func sameQuery(what string, a, b *me.Rule) error {
	qa, err := queryText(a, "raw")
	if err != nil {
		return err
	}
	qb, err := queryText(b, "raw")
	if err != nil {
		return err
	}
	if qa != qb {
		return violated("%s: database query %s becomes %s", what, qa, qb)
	}
	return nil
}

func anyApplies(s []seen) bool {
	for _, e := range s {
		if e.Code > 0 {
			return true
		}
	}
	return false
}

func written(r *me.Rule) (s string, err error) {
	var b []byte
	var merr error
	if err = guarded("writing as JSON", func() { b, merr = json.Marshal(r) }); err != nil {
		return "", err
	}
	if merr != nil {
		return "", violated("a rule cannot be written as JSON: %v", merr)
	}
	return string(b), nil
}

func ruleHash(r *me.Rule) (h string, err error) {
	err = guarded("hashing", func() { h = me.RuleMD5Hash(*r) + "/" + me.RuleMD5HashConditions(*r) + "/" + me.RuleToString(*r) })
	return
}

func ruleOrd(r RuleAST) bool { return r.Tree == nil || orderedData(r.Tree) }

type caseStore struct {
	Rule   RuleAST  `json:"rule"`
	Msgs   []Msg    `json:"msgs"`
	Loader string   `json:"loader"`
	Via    []string `json:"via"`
	Used   bool     `json:"used,omitempty"`
	// second spelling of the same rule
	Sps    []int  `json:"sps,omitempty"`
	TreeSp int    `json:"treesp,omitempty"`
	Load2  string `json:"load2,omitempty"`
}

func genStoredRule(t *rapid.T, o genOpt) (RuleAST, []Msg) {
	doc := genDoc(t, o)
	r := genFrame(t, 1, chance(t, 85))
	if chance(t, 92) {
		r.Tree = genTree(t, scope{doc: doc}, between(t, 0, 3), o)
		r.TreeSp = between(t, 0, 2)
	}
	if chance(t, 30) {
		if r.Meta == nil {
			r.Meta = map[string]string{}
		}
		r.Meta[pick(t, "k", `k"1`, "é", "a.b")] = pick(t, "v", `q"t`, "line\nx", "日本", "<a>&", `back\slash`)
	}
	if chance(t, 10) {
		r.ID = pick(t, `id"x`, "id é", "a b", "<i>")
	}
	msgs := []Msg{withDoc(t, genMsg(t), doc)}
	for i, n := 0, between(t, 0, 2); i < n; i++ {
		m := genMsg(t)
		if chance(t, 80) {
			m = withDoc(t, m, genDoc(t, o))
		}
		msgs = append(msgs, m)
	}
	return r, msgs
}

var stores = []string{"json", "bson", "json-rules", "bson-rules", "json-generic", "bson-generic"}

// through writes a rule in some form and loads it again.
func through(r *me.Rule, how string) (out *me.Rule, err error) {
	step := func(e error) {
		if e != nil {
			panic(e)
		}
	}
	out = &me.Rule{}
	var inner error
	gerr := guarded("storing through "+how, func() {
		defer func() {
			if p := recover(); p != nil {
				e, ok := p.(error)
				if _, rt := p.(interface{ RuntimeError() }); !ok || rt {
					panic(p)
				}
				inner = e
			}
		}()
		switch how {
		case "json":
			b, e := json.Marshal(r)
			step(e)
			step(json.Unmarshal(b, out))
		case "json-value":
			b, e := json.Marshal(*r)
			step(e)
			step(json.Unmarshal(b, out))
		case "bson":
			b, e := bson.Marshal(r)
			step(e)
			step(bson.Unmarshal(b, out))
		case "json-rules":
			b, e := json.Marshal(me.Rules{Rules: []me.Rule{*r}})
			step(e)
			var rs me.Rules
			step(json.Unmarshal(b, &rs))
			*out = rs.Rules[0]
		case "bson-rules":
			type doc struct {
				R []me.Rule `bson:"r"`
			}
			b, e := bson.Marshal(doc{[]me.Rule{*r}})
			step(e)
			var d doc
			step(bson.Unmarshal(b, &d))
			*out = d.R[0]
		case "json-generic": // as a document store would keep it: key order is lost
			b, e := json.Marshal(r)
			step(e)
			var g any
			step(json.Unmarshal(b, &g))
			b, e = json.MarshalIndent(g, "", " ")
			step(e)
			step(json.Unmarshal(b, out))
		case "bson-generic":
			b, e := bson.Marshal(r)
			step(e)
			var g bson.M
			step(bson.Unmarshal(b, &g))
			b, e = bson.Marshal(g)
			step(e)
			step(bson.Unmarshal(b, out))
		default:
			panic("via " + how)
		}
	})
	if gerr != nil {
		return nil, gerr
	}
	if inner != nil {
		return nil, violated("storing a valid rule through %s: %v", how, inner)
	}
	return out, nil
}

func sameRule(what string, a, b *me.Rule, msgs []Msg, ord bool, x *ctx) error {
	ha, err := ruleHash(a)
	if err != nil {
		return err
	}
	hb, err := ruleHash(b)
	if err != nil {
		return err
	}
	if ha != hb {
		return violated("%s: hash %s becomes %s", what, ha, hb)
	}
	wa, err := written(a)
	if err != nil {
		return err
	}
	wb, err := written(b)
	if err != nil {
		return err
	}
	if wa != wb {
		return violated("%s: written form %s becomes %s", what, wa, wb)
	}
	la, err := look(a, msgs, ord)
	if err != nil {
		return err
	}
	lb, err := look(b, msgs, ord)
	if err != nil {
		return err
	}
	x.class("applies %v", anyApplies(la))
	if !reflect.DeepEqual(la, lb) {
		return violated("%s: outcomes %v become %v", what, la, lb)
	}
	if a.RuleID != b.RuleID || !sameMeta(a.Metadata, b.Metadata) {
		return violated("%s: id or metadata change: %q %v, %q %v", what, a.RuleID, a.Metadata, b.RuleID, b.Metadata)
	}
	return sameQuery(what, a, b)
}

func sameMeta(a, b map[string]string) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

func loadOne(r RuleAST, how string) (*me.Rule, error) {
	var rules me.Rules
	var err error
	if gerr := guarded("loading", func() { rules, err = loadRules([]RuleAST{r}, how) }); gerr != nil {
		return nil, gerr
	}
	if err != nil {
		return nil, violated("a valid rule is rejected by the %s loader: %v\n%s", how, err, toYAML(r.generic()))
	}
	if len(rules.Rules) != 1 {
		return nil, violated("one rule written, %d loaded", len(rules.Rules))
	}
	return &rules.Rules[0], nil
}

func checkRoundtrip(c caseStore, x *ctx) error {
	r, err := loadOne(c.Rule, c.Loader)
	if err != nil {
		return err
	}
	ref, err := loadOne(c.Rule, c.Loader)
	if err != nil {
		return err
	}
	ord := ruleOrd(c.Rule)
	if c.Used {
		if _, err := look(r, c.Msgs, ord); err != nil {
			return err
		}
		if err := guarded("validation", func() { me.ValidateRule(r) }); err != nil {
			return err
		}
	}
	cur := r
	for i, v := range c.Via {
		x.class("%s", v)
		if cur, err = through(cur, v); err != nil {
			return err
		}
		if err := sameRule(fmt.Sprintf("step %d (%s)", i, v), ref, cur, c.Msgs, ord, x); err != nil {
			return err
		}
	}
	return nil
}

func respell(n *Node, sps []int) *Node {
	c := n.clone()
	i := 0
	c.walk(func(m *Node) {
		if len(sps) > 0 {
			m.Sp = sps[i%len(sps)]&^4 | m.Sp&4 // the parent list itself is content
		}
		i++
	})
	return c
}

func init() {
	rules["C10"] = "non-trivial: the rule has conditions with a node other than a single plain condition, or a special character, or return values"
	nt := func(r RuleAST) bool {
		return r.Tree != nil && (r.Tree.Op != opCond || hasRet(r.Tree) || strings.ContainsAny(toJSON(r.generic()), `\`))
	}
	addFacet("C10", "roundtrip", 5000, func(t *rapid.T) caseStore {
		o := genOpt{odd: true, attrs: chance(t, 50), ret: chance(t, 30)}
		c := caseStore{Loader: styled(t, loaders...), Used: chance(t, 50)}
		c.Rule, c.Msgs = genStoredRule(t, o)
		for i, n := 0, between(t, 1, 3); i < n; i++ {
			c.Via = append(c.Via, pick(t, stores...))
		}
		return c
	}, func(c caseStore, x *ctx) error {
		x.nt(nt(c.Rule))
		return checkRoundtrip(c, x)
	})
	addFacet("C10", "spellings", 5000, func(t *rapid.T) caseStore {
		o := genOpt{odd: true, attrs: chance(t, 50), ret: chance(t, 30)}
		c := caseStore{Loader: styled(t, loaders...), Load2: styled(t, loaders...), TreeSp: between(t, 0, 2)}
		c.Rule, c.Msgs = genStoredRule(t, o)
		for i := 0; i < 6; i++ {
			c.Sps = append(c.Sps, between(t, 0, 3))
		}
		return c
	}, func(c caseStore, x *ctx) error {
		x.nt(nt(c.Rule))
		a, err := loadOne(c.Rule, c.Loader)
		if err != nil {
			return err
		}
		other := c.Rule
		other.TreeSp = c.TreeSp
		if other.Tree != nil {
			other.Tree = respell(other.Tree, c.Sps)
		}
		b, err := loadOne(other, c.Load2)
		if err != nil {
			return err
		}
		x.class("%s to %s", kindOfHow(c.Loader), kindOfHow(c.Load2))
		return sameRule("the same rule written differently", a, b, c.Msgs, ruleOrd(c.Rule), x)
	})
}

// ---------------------------------------------------------------- C11

type edit struct {
	Kind string `json:"kind"`
	At   int    `json:"at"`
	Arg  int    `json:"arg"`
}

type caseHash struct {
	Rule  RuleAST `json:"rule"`
	Edits []edit  `json:"edits"`
	Load  string  `json:"load"`
	Load2 string  `json:"load2"`
	Use   int     `json:"use"`
}

// canonTree is the content of a tree up to the order of AND/OR children and the
// wrapping of a single child.
func canonTree(n *Node) any {
	if n == nil {
		return nil
	}
	switch n.Op {
	case opCond:
		return []any{"c", n.Cond.attribute(), n.Cond.Method, valText(n.Cond.Val)}
	case opAnd, opOr:
		if len(n.Kids) == 1 {
			return canonTree(n.Kids[0])
		}
		var kids []string
		for _, k := range n.Kids {
			kids = append(kids, canon(canonTree(k)))
		}
		sort.Strings(kids)
		return []any{n.Op, kids}
	case opNot:
		return []any{n.Op, canonTree(n.Kids[0])}
	}
	var ps []string
	for _, p := range n.Parents {
		ps = append(ps, p.text())
	}
	ret := map[string]string{}
	for k, p := range n.Ret {
		ret[k] = p.text()
	}
	return []any{n.Op, ps, n.Sp & 4, ret, canonTree(n.Kids[0])}
}

func valText(v Val) string {
	if v.Kind == "none" {
		return ""
	}
	return v.text()
}

func canonRule(r RuleAST) string {
	return canon([]any{strings.ToLower(r.Decision), strings.ToLower(r.Sender.Type), r.Sender.text(), strings.ToLower(r.Receiver.Type), r.Receiver.text(),
		strings.ToLower(r.Proto), r.ResType, joinSep(r.ResNames, r.ResSep), joinSep(r.Ops, r.OpSep), canonTree(r.Tree)})
}

var presentationEdits = []string{"id", "meta", "decision-case", "proto-case", "type-case", "permute", "wrap", "unwrap", "respell", "hash"}
var semanticEdits = []string{"sender", "sender-type", "receiver", "receiver-type", "proto", "restype", "resname", "op", "decision",
	"name-case", "name-case", "regroup", "regroup", "duplicate", "pad", "value", "attr", "method", "node-op", "negate", "add", "drop", "parent", "quant-ret", "drop-tree"}

// applyEdit changes the rule in place and tells whether it found something to change.
func applyEdit(r *RuleAST, e edit) bool {
	var nodes, ofKind []*Node
	r.Tree.walk(func(n *Node) { nodes = append(nodes, n) })
	filter := func(f func(*Node) bool) *Node {
		ofKind = nil
		for _, n := range nodes {
			if f(n) {
				ofKind = append(ofKind, n)
			}
		}
		if len(ofKind) == 0 {
			return nil
		}
		return ofKind[e.At%len(ofKind)]
	}
	multi := func(n *Node) bool { return (n.Op == opAnd || n.Op == opOr) && len(n.Kids) > 1 }
	isLeaf := func(n *Node) bool { return n.Op == opCond }
	quant := func(n *Node) bool { return n.Op == opAny || n.Op == opAll }
	names := []string{"ns:a", "*", "zz", "a*", "b?", "svc"}
	other := func(list []string, cur string) string {
		for i := range list {
			if v := list[(e.Arg+i)%len(list)]; v != cur {
				return v
			}
		}
		return list[0]
	}
	caseOf := func(s string) string {
		switch e.Arg % 3 {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return strings.ToLower(s)
		}
		return strings.ToUpper(s[:1]) + s[1:]
	}
	switch e.Kind {
	case "id":
		r.ID = fmt.Sprintf("other%d", e.Arg)
	case "meta":
		r.Meta = map[string]string{"x": fmt.Sprint(e.Arg)}
	case "decision-case":
		r.Decision = caseOf(r.Decision)
	case "proto-case":
		r.Proto = caseOf(r.Proto)
	case "type-case":
		if e.At%2 == 0 {
			r.Sender.Type = caseOf(r.Sender.Type)
		} else {
			r.Receiver.Type = caseOf(r.Receiver.Type)
		}
	case "permute":
		n := filter(multi)
		if n == nil {
			return false
		}
		i := e.Arg % len(n.Kids)
		n.Kids = append(n.Kids[i:len(n.Kids):len(n.Kids)], n.Kids[:i]...)
		if e.Arg%2 == 1 {
			n.Kids[0], n.Kids[1] = n.Kids[1], n.Kids[0]
		}
	case "wrap":
		n := filter(func(*Node) bool { return true })
		if n == nil {
			return false
		}
		c := *n
		*n = Node{Op: []string{opAnd, opOr}[e.Arg%2], Kids: []*Node{&c}}
	case "unwrap":
		n := filter(func(n *Node) bool { return (n.Op == opAnd || n.Op == opOr) && len(n.Kids) == 1 })
		if n == nil {
			return false
		}
		*n = *n.Kids[0]
	case "respell":
		for i, n := range nodes {
			n.Sp = n.Sp&4 | (n.Sp+e.Arg+i)&3
		}
		r.TreeSp = e.Arg % 3
	case "hash":
	case "name-case": // names and values are case sensitive, unlike the keywords
		switch e.At % 6 {
		case 0:
			r.Sender.Names = swapCase(r.Sender.Names)
		case 1:
			r.Receiver.Names = swapCase(r.Receiver.Names)
		case 2:
			r.ResNames = swapCase(r.ResNames)
		case 3:
			n := filter(func(n *Node) bool { return isLeaf(n) && (n.Cond.Val.Kind == "str" || n.Cond.Val.Kind == "list") })
			if n == nil {
				return false
			}
			n.Cond.Val.S = swapCase([]string{n.Cond.Val.S})[0]
			n.Cond.Val.List = swapCase(n.Cond.Val.List)
		default:
			n := filter(func(n *Node) bool { return isLeaf(n) && n.Cond.Path != nil && len(n.Cond.Path.Steps) > 0 })
			if n == nil {
				return false
			}
			for i := range n.Cond.Path.Steps {
				n.Cond.Path.Steps[i].K = swapCase([]string{n.Cond.Path.Steps[i].K})[0]
			}
		}
	case "regroup": // a && (b || c) becomes (a && b) || c
		n := filter(func(n *Node) bool {
			if !multi(n) {
				return false
			}
			for _, k := range n.Kids {
				if multi(k) {
					return true
				}
			}
			return false
		})
		if n == nil {
			return false
		}
		for i, k := range n.Kids {
			if multi(k) {
				rest := append(append([]*Node{}, n.Kids[:i]...), n.Kids[i+1:]...)
				j := e.Arg % len(k.Kids)
				inner := &Node{Op: n.Op, Kids: append(rest, k.Kids[j])}
				*n = Node{Op: k.Op, Kids: append([]*Node{inner}, append(append([]*Node{}, k.Kids[:j]...), k.Kids[j+1:]...)...)}
				break
			}
		}
	case "duplicate":
		n := filter(multi)
		if n == nil {
			return false
		}
		n.Kids = append(n.Kids, n.Kids[e.Arg%len(n.Kids)].clone())
	case "pad": // spaces inside a value count
		n := filter(func(n *Node) bool { return isLeaf(n) && n.Cond.Val.Kind == "str" })
		if n == nil {
			return false
		}
		n.Cond.Val.S = []string{" " + n.Cond.Val.S, n.Cond.Val.S + " ", n.Cond.Val.S + "\t"}[e.Arg%3]
	case "sender":
		r.Sender.Names = []string{other(names, r.Sender.text())}
	case "sender-type":
		r.Sender.Type = other([]string{"workload", "subnet", "*"}, strings.ToLower(r.Sender.Type))
	case "receiver":
		r.Receiver.Names = []string{other(names, r.Receiver.text())}
	case "receiver-type":
		r.Receiver.Type = other([]string{"workload", "hostname", "*"}, strings.ToLower(r.Receiver.Type))
	case "proto":
		r.Proto = other([]string{"http", "tcp", "kafka", "*"}, strings.ToLower(r.Proto))
	case "restype":
		r.ResType = other([]string{"path", "port", "kafkaTopic", "*"}, r.ResType)
	case "resname":
		r.ResNames = []string{other([]string{"/a", "/b", "*", "80"}, joinSep(r.ResNames, r.ResSep))}
	case "op":
		r.Ops = []string{other([]string{"read", "write", "*", "patch"}, strings.ToLower(joinSep(r.Ops, r.OpSep)))}
	case "decision":
		r.Decision = other([]string{"allow", "alert", "block"}, strings.ToLower(r.Decision))
	case "value":
		n := filter(isLeaf)
		if n == nil {
			return false
		}
		n.Cond.Val = Val{Kind: "num", S: other([]string{"1", "2", "1.0", "01", "77"}, valText(n.Cond.Val))}
	case "attr":
		n := filter(isLeaf)
		if n == nil {
			return false
		}
		p := Path{Root: rootAbs, Steps: []Step{{K: []string{"s0", "s1", "q"}[e.Arg%3]}}}
		n.Cond = &Cond{Path: &p, Method: n.Cond.Method, Val: n.Cond.Val, Ret: n.Cond.Ret}
	case "method":
		n := filter(func(n *Node) bool { return isLeaf(n) && n.Cond.Attr != "encryptionVersion" })
		if n == nil {
			return false
		}
		n.Cond.Method = other([]string{"EQ", "NEQ", "EX", "NEX", "eq"}, n.Cond.Method)
	case "node-op":
		n := filter(func(n *Node) bool { return multi(n) || quant(n) })
		if n == nil {
			return false
		}
		n.Op = map[string]string{opAnd: opOr, opOr: opAnd, opAny: opAll, opAll: opAny}[n.Op]
	case "negate":
		n := filter(func(*Node) bool { return true })
		if n == nil {
			return false
		}
		if n.Op == opNot {
			*n = *n.Kids[0]
		} else {
			c := *n
			*n = Node{Op: opNot, Kids: []*Node{&c}}
		}
	case "add":
		n := filter(func(n *Node) bool { return n.Op == opAnd || n.Op == opOr })
		if n == nil {
			return false
		}
		n.Kids = append(n.Kids, leaf(Cond{Attr: "domain", Method: "EQ", Val: Val{Kind: "str", S: fmt.Sprint("d", e.Arg)}}))
	case "drop":
		n := filter(multi)
		if n == nil {
			return false
		}
		i := e.Arg % len(n.Kids)
		n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
	case "parent":
		n := filter(quant)
		if n == nil {
			return false
		}
		n.Parents[0].Steps = append(append([]Step{}, n.Parents[0].Steps...), Step{K: fmt.Sprintf("p%d", e.Arg%2)})
	case "quant-ret":
		n := filter(quant)
		if n == nil {
			return false
		}
		n.Ret = map[string]Path{[]string{"v", "w"}[e.Arg%2]: {Root: rootRel, Steps: []Step{{K: []string{"s0", "s1"}[e.At%2]}}}}
	case "drop-tree":
		if r.Tree == nil {
			return false
		}
		r.Tree = nil
	default:
		panic(e.Kind)
	}
	return true
}

func swapCase(l []string) []string {
	var out []string
	for _, s := range l {
		out = append(out, strings.Map(func(r rune) rune {
			if u := unicode.ToUpper(r); u != r {
				return u
			}
			return unicode.ToLower(r)
		}, s))
	}
	return out
}

func cloneRule(r RuleAST) RuleAST {
	b, _ := json.Marshal(r)
	var c RuleAST
	must(json.Unmarshal(b, &c))
	return c
}

func genHashRule(t *rapid.T) RuleAST {
	o := genOpt{attrs: true, odd: chance(t, 30)}
	r := genFrame(t, 1, chance(t, 70))
	if chance(t, 92) {
		r.Tree = genTree(t, scope{doc: genDoc(t, o)}, between(t, 0, 4), o)
		r.TreeSp = between(t, 0, 2)
	}
	for i := range r.Ops {
		r.Ops[i] = strings.ToLower(r.Ops[i])
	}
	return r
}

func checkHashes(c caseHash, x *ctx) error {
	a, err := loadOne(c.Rule, c.Load)
	if err != nil {
		return err
	}
	other := cloneRule(c.Rule)
	for _, e := range c.Edits {
		if applyEdit(&other, e) {
			x.class("%s", e.Kind)
		}
	}
	b, err := loadOne(other, c.Load2)
	if err != nil {
		return err
	}
	if c.Use&1 != 0 {
		m := buildMsg(&Msg{Src: "a", Dst: "b"}, docRaw)
		if _, _, err := checkOne(m, a); err != nil {
			return err
		}
	}
	if c.Use&2 != 0 {
		if err := guarded("validation", func() { me.ValidateRule(b) }); err != nil {
			return err
		}
		if err := guarded("preparation", func() { b.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) }); err != nil {
			return err
		}
	}
	if c.Use&4 != 0 {
		if err := guarded("database translation", func() { a.ToMongoQuery("raw") }); err != nil {
			return err
		}
	}
	same := canonRule(c.Rule) == canonRule(other)
	sameConds := canon(canonTree(c.Rule.Tree)) == canon(canonTree(other.Tree))
	x.class("same %v", same)
	x.class("same conditions %v", sameConds)
	var ha, hb, ca, cb string
	var eq, eq2 bool
	if err := guarded("hashing", func() {
		ha, hb, ca, cb = me.RuleMD5Hash(*a), me.RuleMD5Hash(*b), me.RuleMD5HashConditions(*a), me.RuleMD5HashConditions(*b)
		eq, eq2 = a.ConditionsEqual(*b), b.ConditionsEqual(*a)
	}); err != nil {
		return err
	}
	if same != (ha == hb) {
		return violated("the rules are the same up to presentation: %v, their hashes are equal: %v\n%s\n%s", same, ha == hb, toYAML(c.Rule.generic()), toYAML(other.generic()))
	}
	if sameConds != (ca == cb) {
		return violated("the conditions are the same up to presentation: %v, their hashes are equal: %v\n%s\n%s", sameConds, ca == cb, toYAML(c.Rule.generic()), toYAML(other.generic()))
	}
	if eq != sameConds || eq2 != sameConds {
		return violated("the conditions are the same: %v, but they are compared as equal: %v %v", sameConds, eq, eq2)
	}
	if c.Use&8 != 0 {
		return checkLower(b, cb, x)
	}
	return nil
}

// checkLower writes the keywords of the rule in lower case: names, texts and conditions
// stay as they are.
func checkLower(r *me.Rule, hash string, x *ctx) error {
	was := *r
	meta := fmt.Sprint(was.Metadata)
	if err := guarded("lower case", r.ToLower); err != nil {
		return err
	}
	for _, f := range [][3]string{
		{"rule id", was.RuleID, r.RuleID},
		{"sender name", was.Sender.SenderName, r.Sender.SenderName},
		{"receiver name", was.Receiver.ReceiverName, r.Receiver.ReceiverName},
		{"resource name", was.Resource.ResourceName, r.Resource.ResourceName},
		{"sender type", strings.ToLower(was.Sender.SenderType), r.Sender.SenderType},
		{"receiver type", strings.ToLower(was.Receiver.ReceiverType), r.Receiver.ReceiverType},
		{"resource type", strings.ToLower(was.Resource.ResourceType), r.Resource.ResourceType},
		{"protocol", strings.ToLower(was.Protocol), r.Protocol},
		{"operation", strings.ToLower(was.Operation), r.Operation},
		{"decision", strings.ToLower(was.Decision), r.Decision},
		{"hash of the conditions", hash, me.RuleMD5HashConditions(*r)},
	} {
		if f[1] != f[2] {
			return violated("after writing the keywords in lower case the %s is %q instead of %q", f[0], f[2], f[1])
		}
	}
	if meta != fmt.Sprint(r.Metadata) {
		return violated("after writing the keywords in lower case the metadata differ")
	}
	if was.Resource.ResourceType == r.Resource.ResourceType && me.RuleMD5Hash(was) != me.RuleMD5Hash(*r) {
		return violated("writing the keywords in lower case changes the hash of the rule")
	}
	x.class("lower case")
	return nil
}

func init() {
	rules["C11"] = "non-trivial: the rule has a conditions tree of more than one node and at least one edit was applied"
	mk := func(kinds []string, extra []string, n int) func(t *rapid.T) caseHash {
		return func(t *rapid.T) caseHash {
			c := caseHash{Rule: genHashRule(t), Load: styled(t, loaders...), Load2: styled(t, loaders...), Use: between(t, 0, 15)}
			for i, k := 0, between(t, 1, n); i < k; i++ {
				c.Edits = append(c.Edits, edit{pick(t, kinds...), between(t, 0, 30), between(t, 0, 6)})
			}
			if extra != nil {
				c.Edits = append(c.Edits, edit{pick(t, extra...), between(t, 0, 30), between(t, 0, 6)})
			}
			return c
		}
	}
	chk := func(c caseHash, x *ctx) error {
		x.nt(c.Rule.Tree != nil && c.Rule.Tree.depth() > 1 && len(c.Edits) > 0)
		return checkHashes(c, x)
	}
	addFacet("C11", "presentation", 5000, mk(presentationEdits, nil, 5), chk)
	addFacet("C11", "semantic", 7000, mk(presentationEdits, semanticEdits, 2), chk)
	addFacet("C11", "mixed", 3000, mk(append(append([]string{}, presentationEdits...), semanticEdits...), nil, 6), chk)
}

// ---------------------------------------------------------------- C12

type caseDefs struct {
	Rule   RuleAST `json:"rule"` // with references
	Msgs   []Msg   `json:"msgs"`
	Defs   []Defs  `json:"defs"` // prepared with one after the other
	How    string  `json:"how"`
	Loader string  `json:"loader"`
}

var refNames = []string{"x", "y", "list1", "str_2", "a.b", "Zoo", "xy", "X", "list12", "a", "x#", "x#y"}

func genDefs(t *rapid.T, rule *RuleAST) Defs {
	d := Defs{Strings: map[string]string{}, Lists: map[string][]string{}}
	if chance(t, 40) {
		d.Style = between(t, 1, 99999)
	}
	val := func() string {
		return pick(t, "a", "b", "ab", "abc", "ns:a", "prod", "x1", "nginx", "1", "2", "100", "svc", "a,b", "a, b", "ns:a,svc", "a|b")
	}
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		d.Strings[pick(t, refNames...)] = val()
	}
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		var l []string
		for j, m := 0, few(t, 1, 3); j < m; j++ {
			if chance(t, 30) {
				ks := sortedKeys(d.Strings)
				l = append(l, "#"+ks[between(t, 0, len(ks)-1)])
			} else {
				l = append(l, val())
			}
		}
		d.Lists[pick(t, refNames...)] = l
	}
	return d
}

// lookup gives the text a reference stands for.
func (d Defs) lookup(name string, re bool) (string, bool) {
	if l, ok := d.Lists[name]; ok {
		var out []string
		for _, e := range l {
			if s, isRef := strings.CutPrefix(e, "#"); isRef {
				e = d.Strings[s]
			}
			out = append(out, e)
		}
		if re {
			return strings.Join(out, "|"), true
		}
		return strings.Join(out, ","), true
	}
	s, ok := d.Strings[name]
	return s, ok
}

// valid: every reference inside a list is defined.
func (d Defs) valid() bool {
	for _, l := range d.Lists {
		for _, e := range l {
			if s, isRef := strings.CutPrefix(e, "#"); isRef {
				if _, ok := d.Strings[s]; !ok {
					return false
				}
			}
		}
	}
	return true
}

// inPlace replaces the references of a rule; ok is false when one is undefined.
func (d Defs) inPlace(r RuleAST) (RuleAST, bool) {
	c := cloneRule(r)
	ok := true
	party := func(p *Party) {
		if len(p.Names) == 1 && strings.HasPrefix(p.Names[0], "#") {
			s, found := d.lookup(p.Names[0][1:], false)
			ok = ok && found
			p.Names = []string{s}
		}
	}
	party(&c.Sender)
	party(&c.Receiver)
	c.Tree.walk(func(n *Node) {
		if n.Cond != nil && n.Cond.Val.Kind == "ref" {
			m := strings.ToUpper(n.Cond.Method)
			s, found := d.lookup(n.Cond.Val.S, m == "RE" || m == "NRE")
			ok = ok && found
			n.Cond.Val = Val{Kind: "str", S: s}
		}
	})
	return c, ok
}

// engineDefs gives the definitions to the engine as its users do.
func engineDefs(d Defs, file bool, dir string) (out me.PredefinedStringsAndLists, err error) {
	o := obj{}
	if len(d.Strings) > 0 {
		s := obj{}
		for _, k := range sortedKeys(d.Strings) {
			s = append(s, kv{Key: k, Value: d.Strings[k]})
		}
		o = append(o, kv{Key: "predefinedStrings", Value: s})
	}
	if len(d.Lists) > 0 {
		s := obj{}
		for _, k := range sortedKeys(d.Lists) {
			l := []any{}
			for _, e := range d.Lists[k] {
				l = append(l, e)
			}
			s = append(s, kv{Key: k, Value: l})
		}
		o = append(o, kv{Key: "predefinedLists", Value: s})
	}
	var e error
	missing := false
	gerr := guarded("loading definitions", func() {
		if file {
			name := filepath.Join(dir, "defs.yaml")
			must(os.WriteFile(name, []byte(yamlText(o, d.Style)), 0o644))
			if d, e := me.YamlReadStringListsFromFile(name + ".missing"); e == nil || len(d.PredefinedLists)+len(d.PredefinedStrings) > 0 {
				missing = true
			}
			out, e = me.YamlReadStringListsFromFile(name)
		} else {
			out, e = me.YamlReadStringListsFromString(yamlText(o, d.Style))
		}
	})
	if gerr != nil {
		return out, gerr
	}
	if missing {
		return out, violated("a file that does not exist is read as definitions")
	}
	return out, e
}

func genRefRule(t *rapid.T, doc any) RuleAST {
	o := genOpt{attrs: true, noRet: chance(t, 60)}
	r := genFrame(t, 1, true)
	refs := 0
	if chance(t, 40) {
		r.Sender = Party{Type: pick(t, "workload", "*"), Names: []string{"#" + pick(t, refNames...)}}
		if chance(t, 20) {
			r.Sender = Party{Type: "subnet", Names: []string{"#nets"}}
		}
		refs++
	}
	if chance(t, 40) {
		r.Receiver = Party{Type: pick(t, "workload", "*", "hostname"), Names: []string{"#" + pick(t, refNames...)}}
		if chance(t, 20) {
			r.Receiver = Party{Type: "subnet", Names: []string{"#nets"}}
		}
		refs++
	}
	if chance(t, 85) || refs == 0 {
		r.Tree = genTree(t, scope{doc: doc}, between(t, 0, 3), o)
		r.TreeSp = between(t, 0, 2)
		r.Tree.walk(func(n *Node) {
			if n.Cond == nil || n.Cond.Val.Kind == "none" || !chance(t, 60) {
				return
			}
			switch strings.ToUpper(n.Cond.Method) {
			case "EQ", "NEQ", "NE", "RE", "NRE", "IN", "NIN", "IS":
				if n.Cond.Attr == "payloadSize" || n.Cond.Attr == "utcHoursFromMidnight" || n.Cond.Attr == "encryptionVersion" {
					return
				}
				n.Cond.Val = Val{Kind: "ref", S: pick(t, refNames...)}
			case "GT", "GE", "LT", "LE":
				if chance(t, 50) {
					n.Cond.Val = Val{Kind: "ref", S: "num"}
				}
			}
		})
	}
	return r
}

var scratchOnce sync.Once
var scratchPath string

// scratch is a private directory of this process.
func scratch() string {
	scratchOnce.Do(func() {
		base := os.Getenv("VH_SCRATCH")
		d, err := os.MkdirTemp(base, "vh-*")
		must(err)
		scratchPath = d
	})
	return scratchPath
}

// checkBadGlobals: invalid definitions are refused as global ones, the earlier ones stay.
func checkBadGlobals(d Defs) error {
	defer me.SetGlobalPredefinedStringsAndLists(me.PredefinedStringsAndLists{})
	must(me.SetGlobalPredefinedStringsAndLists(me.PredefinedStringsAndLists{PredefinedStrings: map[string]string{"who": "before"}}))
	var gerr error
	if err := guarded("setting global definitions", func() {
		gerr = me.SetGlobalPredefinedStringsAndLists(me.PredefinedStringsAndLists{PredefinedStrings: d.Strings, PredefinedLists: d.Lists})
	}); err != nil {
		return err
	}
	if gerr == nil {
		return violated("global definitions with an undefined reference are accepted: %s", canon(d))
	}
	r := anyRule("block", nil)
	r.Sender = Party{Type: "workload", Names: []string{"#who"}}
	rule, err := loadOne(r, "yaml")
	if err != nil {
		return err
	}
	code, _, err := checkOne(buildMsg(&Msg{Src: "before", Dst: "x"}, docRaw), rule)
	if err != nil {
		return err
	}
	if code != me.BLOCK {
		return violated("after refused global definitions the earlier ones are gone: the rule gives %d", code)
	}
	return nil
}

func checkRefs(c caseDefs, x *ctx) error {
	r, err := loadOne(c.Rule, c.Loader)
	if err != nil {
		return err
	}
	wbefore, err := written(r)
	if err != nil {
		return err
	}
	hbefore, err := ruleHash(r)
	if err != nil {
		return err
	}
	ord := ruleOrd(c.Rule)
	for i, d := range c.Defs {
		ed, derr := engineDefs(d, c.How == "file", scratch())
		if v, ok := derr.(*violation); ok {
			return v
		}
		if !d.valid() {
			x.class("undefined string in a list")
			if derr == nil {
				return violated("definitions with an undefined reference are accepted: %s", canon(d))
			}
			if err := checkBadGlobals(d); err != nil {
				return err
			}
			continue
		}
		if derr != nil {
			return violated("valid definitions are rejected: %v\n%s", derr, canon(d))
		}
		in, defined := d.inPlace(c.Rule)
		var perr error
		var loaded me.Rules
		if gerr := guarded("preparation with definitions", func() {
			switch c.How {
			case "string":
				loaded, perr = me.YamlReadRulesFromStringWithPredefinedStrings(yamlText(rulesGeneric([]RuleAST{c.Rule}), d.Style), ed)
			case "file":
				name := filepath.Join(scratch(), "rules.yaml")
				must(os.WriteFile(name, []byte(yamlText(rulesGeneric([]RuleAST{c.Rule}), d.Style)), 0o644))
				loaded, perr = me.YamlReadRulesFromFileWithPredefinedStrings(name, ed)
			case "global": // only a rule that was not prepared yet takes the global definitions
				must(me.SetGlobalPredefinedStringsAndLists(me.PredefinedStringsAndLists{PredefinedStrings: ed.PredefinedStrings, PredefinedLists: ed.PredefinedLists}))
				loaded, perr = me.YamlReadRulesFromString(toYAML(rulesGeneric([]RuleAST{c.Rule})))
			case "in-place": // the rules themselves are prepared; the references are gone then
				if loaded, perr = me.YamlReadRulesFromString(toYAML(rulesGeneric([]RuleAST{anyRule("allow", nil), c.Rule, anyRule("block", nil)}))); perr == nil {
					perr = me.PrepareRulesWithPredefinedStrings(&loaded, ed)
					loaded.Rules = loaded.Rules[1:2]
				}
			default:
				perr = r.SetPredefinedStringsAndLists(ed)
			}
		}); gerr != nil {
			return gerr
		}
		if c.How == "global" {
			defer me.SetGlobalPredefinedStringsAndLists(me.PredefinedStringsAndLists{})
		}
		rule := r
		if len(loaded.Rules) == 1 {
			rule = &loaded.Rules[0]
		}
		x.class("defined %v", defined)
		if !defined && c.How != "global" {
			if perr == nil {
				return violated("definitions %d: a reference to an undefined name is accepted", i)
			}
			if rule == r {
				got, err := look(r, c.Msgs, ord)
				if err != nil {
					return err
				}
				if anyApplies(got) {
					return violated("definitions %d: a rule with an undefined reference applies", i)
				}
			}
			continue
		}
		if defined && perr != nil {
			return violated("definitions %d: preparation fails: %v\n%s\n%s", i, perr, canon(d), toYAML(c.Rule.generic()))
		}
		got, err := look(rule, c.Msgs, ord)
		if err != nil {
			return err
		}
		if !defined {
			if anyApplies(got) {
				return violated("global definitions %d: a rule with an undefined reference applies", i)
			}
			continue
		}
		plain, err := loadOne(in, c.Loader)
		if err != nil {
			return err
		}
		if err := guarded("preparation", func() { perr = plain.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) }); err != nil {
			return err
		}
		if perr != nil {
			return violated("definitions %d: the rule with the contents in place is rejected: %v", i, perr)
		}
		want, err := look(plain, c.Msgs, ord)
		if err != nil {
			return err
		}
		x.class("applies %v", anyApplies(want))
		if !reflect.DeepEqual(got, want) {
			return violated("definitions %d (%s): outcomes %v, with the contents in place %v\n%s\n%s", i, c.How, got, want, canon(d), toYAML(c.Rule.generic()))
		}
		if err := sameQuery(fmt.Sprintf("definitions %d (%s): with the contents in place", i, c.How), plain, rule); err != nil {
			return err
		}
		if c.How == "in-place" {
			continue
		}
		w, err := written(rule)
		if err != nil {
			return err
		}
		h, err := ruleHash(rule)
		if err != nil {
			return err
		}
		if w != wbefore || h != hbefore {
			return violated("definitions %d: preparation changes the written form or hash of the rule: %s %s, %s %s", i, wbefore, hbefore, w, h)
		}
	}
	return nil
}

func init() {
	rules["C12"] = "non-trivial: the rule has a reference, and all references are defined in at least one of the definitions"
	addFacet("C12", "references", 6000, func(t *rapid.T) caseDefs {
		o := genOpt{}
		doc := genDoc(t, o)
		c := caseDefs{How: pick(t, "set", "set", "string", "file", "global", "in-place"), Loader: styled(t, loaders...)}
		c.Rule = genRefRule(t, doc)
		var nets []string
		for i, n := 0, between(t, 1, 3); i < n; i++ {
			d := genDefs(t, &c.Rule)
			if chance(t, 80) { // define what is missing
				def := func(s string, num bool) {
					if _, ok := d.lookup(s, false); !ok {
						d.Strings[s] = pick(t, "a", "b", "prod", "ns:a", "abc")
						if num {
							d.Strings[s] = pick(t, "1", "10", "1Ki", "0.5")
						}
					}
				}
				for _, p := range []Party{c.Rule.Sender, c.Rule.Receiver} {
					if p.Names[0] == "#nets" {
						q, ip := genSubnetParty(t)
						if d.Lists["nets"] = q.Names; len(q.Names) == 1 && chance(t, 50) {
							delete(d.Lists, "nets")
							d.Strings["nets"] = q.Names[0]
						}
						nets = append(nets, ip)
					} else if strings.HasPrefix(p.Names[0], "#") {
						def(p.Names[0][1:], false)
					}
				}
				c.Rule.Tree.walk(func(n *Node) {
					if n.Cond != nil && n.Cond.Val.Kind == "ref" {
						def(n.Cond.Val.S, n.Cond.Val.S == "num")
					}
				})
			}
			if chance(t, 5) {
				for k := range d.Lists {
					_ = k
				}
				ks := sortedKeys(d.Lists)
				k := ks[between(t, 0, len(ks)-1)]
				d.Lists[k] = append(d.Lists[k], "#nowhere")
			}
			c.Defs = append(c.Defs, d)
		}
		c.Msgs = []Msg{withDoc(t, genMsg(t), doc), withDoc(t, genMsg(t), genDoc(t, o))}
		if chance(t, 50) {
			c.Msgs[0].Src, c.Msgs[0].Dst = pick(t, "a", "b", "ns:a", "abc"), pick(t, "a", "b", "ns:a", "abc")
			c.Msgs[0].Host = pick(t, "a", "b", "ns:a", "abc")
		}
		if len(nets) > 0 {
			c.Msgs[0].SrcIP, c.Msgs[0].DstIP = nets[0], nets[len(nets)-1]
		}
		return c
	}, func(c caseDefs, x *ctx) error {
		has := strings.HasPrefix(c.Rule.Sender.Names[0], "#") || strings.HasPrefix(c.Rule.Receiver.Names[0], "#")
		c.Rule.Tree.walk(func(n *Node) { has = has || n.Cond != nil && n.Cond.Val.Kind == "ref" })
		ok := false
		for _, d := range c.Defs {
			_, def := d.inPlace(c.Rule)
			ok = ok || def && d.valid()
		}
		x.nt(has && ok)
		x.class("%s", c.How)
		return checkRefs(c, x)
	})
}
