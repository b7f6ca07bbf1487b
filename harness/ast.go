package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"gopkg.in/yaml.v2"
)

// ---------------------------------------------------------------- paths

// Step is one step of a JSON path.
type Step struct {
	K    string `json:"k,omitempty"`    // object key
	I    *int   `json:"i,omitempty"`    // array index
	All  bool   `json:"all,omitempty"`  // every element of an array
	Deep bool   `json:"deep,omitempty"` // ..K: the key K at any depth
	Q    int    `json:"q,omitempty"`    // spelling variant: key 0 .k 1 ["k"] 2 ['k'] 3 .'k' 4 .["k"] 5 ."k" 6 .['k'] ; all 0 [:] 1 [*]
}

const (
	rootAbs   = "$"
	rootDot   = "." // leaf only: "jsonpath:.a.b" means "$.a.b"
	rootRel   = "$RELATIVE"
	rootKey   = "$KEY"
	rootValue = "$VALUE"
	rootStar  = "$RELATIVE*" // the entries of the current element / the whole element
	rootWhole = "$*"         // return values only: the whole document
)

type Path struct {
	Root  string `json:"root"`
	Steps []Step `json:"steps,omitempty"`
}

func (p Path) relative() bool { return p.Root != rootAbs && p.Root != rootDot && p.Root != rootWhole }

func (p Path) multi() bool {
	for _, s := range p.Steps {
		if s.All || s.Deep {
			return true
		}
	}
	return false
}

func (p Path) text() string {
	var b strings.Builder
	b.WriteString("jsonpath:")
	root := p.Root
	if root == rootDot {
		root = ""
	}
	b.WriteString(root)
	for _, s := range p.Steps {
		switch {
		case s.All && s.Q == 1:
			b.WriteString("[*]")
		case s.All:
			b.WriteString("[:]")
		case s.I != nil:
			fmt.Fprintf(&b, "[%d]", *s.I)
		case s.Deep:
			b.WriteString(".." + s.K)
		case s.Q == 1:
			b.WriteString(`["` + s.K + `"]`)
		case s.Q == 2:
			b.WriteString(`['` + s.K + `']`)
		case s.Q == 3:
			b.WriteString(`.'` + s.K + `'`)
		case s.Q == 4:
			b.WriteString(`.["` + s.K + `"]`)
		case s.Q == 5:
			b.WriteString(`."` + s.K + `"`)
		case s.Q == 6:
			b.WriteString(`.['` + s.K + `']`)
		default:
			b.WriteString("." + s.K)
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- conditions

// Cond is one attribute condition: either on a JSON path or on a named attribute.
type Cond struct {
	Path   *Path           `json:"path,omitempty"`
	Attr   string          `json:"attr,omitempty"` // e.g. "domain", "senderLabel[app]", "true"
	Method string          `json:"method"`
	Val    Val             `json:"val"`
	Ret    map[string]Path `json:"ret,omitempty"`
}

// Val is a structured condition value; text() is what the rule says.
type Val struct {
	Kind  string   `json:"kind"` // none, num, str, list, re, rlabel, rattr, ref
	S     string   `json:"s,omitempty"`
	Unit  string   `json:"unit,omitempty"`
	List  []string `json:"list,omitempty"`
	NoBr  bool     `json:"nobr,omitempty"`  // list without brackets
	AsNum bool     `json:"asnum,omitempty"` // written as a YAML/JSON number instead of a string
}

func (v Val) text() string {
	switch v.Kind {
	case "num":
		return v.S + v.Unit
	case "list":
		if v.NoBr {
			return strings.Join(v.List, ",")
		}
		return "[" + strings.Join(v.List, ",") + "]"
	case "rlabel":
		return "receiverLabel[" + v.S + "]"
	case "rattr":
		return "$receiver." + v.S
	case "ref":
		return "#" + v.S
	}
	return v.S
}

func (c Cond) attribute() string {
	if c.Path != nil {
		return c.Path.text()
	}
	return c.Attr
}

// ---------------------------------------------------------------- trees

const (
	opCond = "COND"
	opAnd  = "AND"
	opOr   = "OR"
	opNot  = "NOT"
	opAny  = "ANY"
	opAll  = "ALL"
)

type Node struct {
	Op      string          `json:"op"`
	Cond    *Cond           `json:"cond,omitempty"`
	Kids    []*Node         `json:"kids,omitempty"`
	Parents []Path          `json:"parents,omitempty"`
	Ret     map[string]Path `json:"ret,omitempty"`
	Sp      int             `json:"sp,omitempty"` // spelling variant
	Bad     *Defect         `json:"bad,omitempty"`
}

// Defect makes the node it is attached to malformed.
type Defect struct {
	Kind string `json:"kind"`
	A    string `json:"a,omitempty"`
	B    string `json:"b,omitempty"`
}

func leaf(c Cond) *Node { return &Node{Op: opCond, Cond: &c} }

func (n *Node) walk(f func(*Node)) {
	if n == nil {
		return
	}
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

func (n *Node) clone() *Node {
	if n == nil {
		return nil
	}
	b, _ := json.Marshal(n)
	var m Node
	json.Unmarshal(b, &m)
	return &m
}

func (n *Node) depth() int {
	d := 0
	for _, k := range n.Kids {
		if x := k.depth(); x > d {
			d = x
		}
	}
	return d + 1
}

func (n *Node) has(ops ...string) bool {
	found := false
	n.walk(func(m *Node) {
		for _, o := range ops {
			if m.Op == o {
				found = true
			}
		}
	})
	return found
}

type kv = yaml.MapItem
type obj = yaml.MapSlice

func retGeneric(ret map[string]Path) obj {
	o := obj{}
	for _, k := range sortedKeys(ret) {
		o = append(o, kv{Key: k, Value: ret[k].text()})
	}
	return o
}

func condGeneric(c *Cond, upper bool) obj {
	a, m, v, r := "attribute", "method", "value", "returnValueJsonpath"
	if upper {
		a, m, v, r = "Attribute", "Method", "Value", "ReturnValueJsonpath"
	}
	o := obj{{Key: a, Value: c.attribute()}, {Key: m, Value: c.Method}}
	if c.Val.Kind != "none" {
		var val any = c.Val.text()
		if c.Val.AsNum {
			if f, err := strconv.ParseInt(c.Val.text(), 10, 32); err == nil && strconv.FormatInt(f, 10) == c.Val.text() {
				val = f
			}
		}
		o = append(o, kv{Key: v, Value: val})
	}
	if len(c.Ret) > 0 {
		o = append(o, kv{Key: r, Value: retGeneric(c.Ret)})
	}
	return o
}

// generic renders a tree as the nested structure a rule file contains. The spelling
// variants are equivalent ways of writing the same tree.
func (n *Node) generic() any {
	if n.Bad != nil {
		return n.malformed()
	}
	switch n.Op {
	case opCond:
		switch n.Sp % 3 {
		case 1:
			return obj{{Key: "condition", Value: condGeneric(n.Cond, false)}}
		case 2:
			return condGeneric(n.Cond, true)
		}
		return condGeneric(n.Cond, false)
	case opAnd, opOr:
		list := []any{}
		for _, k := range n.Kids {
			list = append(list, k.generic())
		}
		return obj{{Key: n.Op, Value: list}}
	case opNot:
		kid := n.Kids[0].generic()
		if n.Sp%2 == 1 {
			return obj{{Key: opNot, Value: []any{kid}}}
		}
		return obj{{Key: opNot, Value: kid}}
	case opAny, opAll:
		var ps []string
		for i, p := range n.Parents {
			t := p.text()
			if i > 0 && n.Sp&4 != 0 {
				t = strings.TrimPrefix(t, "jsonpath:")
			}
			ps = append(ps, t)
		}
		in := obj{{Key: "parentJsonpathAttribute", Value: strings.Join(ps, ",")}}
		if len(n.Ret) > 0 {
			in = append(in, kv{Key: "returnValueJsonpath", Value: retGeneric(n.Ret)})
		}
		kid := n.Kids[0]
		inner := kid.generic()
		io, isObj := inner.(obj)
		switch {
		case kid.Bad != nil:
			in = append(in, kv{Key: "condition", Value: inner})
		case kid.Op == opCond:
			in = append(in, kv{Key: "condition", Value: condGeneric(kid.Cond, kid.Sp%3 == 2)})
		case n.Sp&1 == 1 && isObj && len(io) == 1:
			in = append(in, io[0]) // AND/OR/... directly next to parentJsonpathAttribute
		default:
			in = append(in, kv{Key: "condition", Value: inner})
		}
		return obj{{Key: n.Op, Value: in}}
	}
	panic("bad op " + n.Op)
}

// ---------------------------------------------------------------- rules

type Party struct {
	Type  string   `json:"type"`
	Names []string `json:"names"`
	Sep   string   `json:"sep,omitempty"` // how the list is separated, default ","
}

func joinSep(list []string, sep string) string {
	if sep == "" {
		sep = ","
	}
	return strings.Join(list, sep)
}

func (p Party) text() string { return joinSep(p.Names, p.Sep) }

type RuleAST struct {
	ID       string            `json:"id,omitempty"`
	Sender   Party             `json:"sender"`
	Receiver Party             `json:"receiver"`
	Proto    string            `json:"proto"`
	ResType  string            `json:"restype"`
	ResNames []string          `json:"resnames"`
	ResSep   string            `json:"ressep,omitempty"`
	Ops      []string          `json:"ops"`
	OpSep    string            `json:"opsep,omitempty"`
	Decision string            `json:"decision"`
	Meta     map[string]string `json:"meta,omitempty"`
	Tree     *Node             `json:"tree,omitempty"`
	TreeSp   int               `json:"treesp,omitempty"` // how the tree is attached
}

func anyRule(decision string, tree *Node) RuleAST {
	return RuleAST{ID: "r", Sender: Party{Type: "workload", Names: []string{"*"}}, Receiver: Party{Type: "workload", Names: []string{"*"}},
		Proto: "*", ResType: "*", ResNames: []string{"*"}, Ops: []string{"*"}, Decision: decision, Tree: tree}
}

func (r RuleAST) generic() obj {
	o := obj{}
	if r.ID != "" {
		o = append(o, kv{Key: "ruleID", Value: r.ID})
	}
	o = append(o,
		kv{Key: "sender", Value: obj{{Key: "senderName", Value: r.Sender.text()}, {Key: "senderType", Value: r.Sender.Type}}},
		kv{Key: "receiver", Value: obj{{Key: "receiverName", Value: r.Receiver.text()}, {Key: "receiverType", Value: r.Receiver.Type}}},
		kv{Key: "protocol", Value: r.Proto},
		kv{Key: "resource", Value: obj{{Key: "resourceType", Value: r.ResType}, {Key: "resourceName", Value: joinSep(r.ResNames, r.ResSep)}}},
		kv{Key: "operation", Value: joinSep(r.Ops, r.OpSep)},
		kv{Key: "decision", Value: r.Decision})
	if len(r.Meta) > 0 {
		m := obj{}
		for _, k := range sortedKeys(r.Meta) {
			m = append(m, kv{Key: k, Value: r.Meta[k]})
		}
		o = append(o, kv{Key: "metadata", Value: m})
	}
	if r.Tree != nil {
		var t any = r.Tree.generic()
		switch r.TreeSp % 3 {
		case 1:
			t = obj{{Key: "conditionsTree", Value: t}}
		case 2:
			t = []any{t}
		}
		o = append(o, kv{Key: "conditions", Value: t})
	}
	return o
}

func rulesGeneric(rs []RuleAST) obj {
	list := []any{}
	for _, r := range rs {
		list = append(list, r.generic())
	}
	return obj{{Key: "rules", Value: list}}
}

// toYAML and toJSON write the nested structure as text.
func toYAML(v any) string {
	b, err := yaml.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func toJSON(v any) string {
	var b bytes.Buffer
	writeJSON(&b, v)
	return b.String()
}

func writeJSON(b *bytes.Buffer, v any) {
	switch x := v.(type) {
	case obj:
		b.WriteByte('{')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			writeJSON(b, e.Key)
			b.WriteByte(':')
			writeJSON(b, e.Value)
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			writeJSON(b, e)
		}
		b.WriteByte(']')
	default:
		j, err := json.Marshal(x)
		if err != nil {
			panic(err)
		}
		b.Write(j)
	}
}

// ---------------------------------------------------------------- messages

type Msg struct {
	ID        string            `json:"id,omitempty"`
	Src       string            `json:"src,omitempty"`
	Dst       string            `json:"dst,omitempty"`
	SrcIP     string            `json:"srcip,omitempty"`
	DstIP     string            `json:"dstip,omitempty"`
	Port      string            `json:"port,omitempty"`
	Path      string            `json:"path,omitempty"`
	Host      string            `json:"host,omitempty"`
	Method    string            `json:"method,omitempty"`
	Proto     string            `json:"proto,omitempty"`
	Type      string            `json:"type,omitempty"`
	Size      int64             `json:"size,omitempty"`
	UA        string            `json:"ua,omitempty"`
	EncType   string            `json:"enctype,omitempty"`
	EncVer    *float64          `json:"encver,omitempty"`
	Domain    string            `json:"domain,omitempty"`
	SrcNS     string            `json:"srcns,omitempty"`
	DstNS     string            `json:"dstns,omitempty"`
	SrcCl     string            `json:"srccl,omitempty"`
	DstCl     string            `json:"dstcl,omitempty"`
	SrcLabels map[string]string `json:"srclabels,omitempty"`
	DstLabels map[string]string `json:"dstlabels,omitempty"`
	Sec       int               `json:"sec,omitempty"` // seconds since midnight UTC
	HasDoc    bool              `json:"hasdoc,omitempty"`
	Doc       any               `json:"doc,omitempty"`
	Style     int               `json:"style,omitempty"` // textual form of the raw document
}

// ---------------------------------------------------------------- raw text of documents

// renderDoc writes a document as JSON text. Styles differ in whitespace, key order
// and string escapes only.
func renderDoc(v any, style int) []byte {
	var b bytes.Buffer
	renderVal(&b, v, style, 0)
	return b.Bytes()
}

func renderVal(b *bytes.Buffer, v any, style, ind int) {
	nl := func(d int) {
		switch style & 3 {
		case 1:
			b.WriteString("\n" + strings.Repeat("  ", d))
		case 2:
			b.WriteByte(' ')
		case 3:
			b.WriteString("\t\n ")
		}
	}
	switch x := v.(type) {
	case map[string]any:
		keys := sortedKeys(x)
		if style&4 != 0 {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			nl(ind + 1)
			renderStr(b, k, style)
			if style&3 == 3 {
				b.WriteByte(' ')
			}
			b.WriteByte(':')
			if style&3 != 0 {
				b.WriteByte(' ')
			}
			renderVal(b, x[k], style, ind+1)
		}
		if len(keys) > 0 {
			nl(ind)
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			nl(ind + 1)
			renderVal(b, e, style, ind+1)
		}
		if len(x) > 0 {
			nl(ind)
		}
		b.WriteByte(']')
	case string:
		renderStr(b, x, style)
	default:
		j, err := json.Marshal(x)
		if err != nil {
			panic(err)
		}
		b.Write(j)
	}
}

func renderStr(b *bytes.Buffer, s string, style int) {
	if style&8 != 0 {
		// escape everything that JSON allows to be escaped
		b.WriteByte('"')
		for i, r := range s {
			switch {
			case r == '"' || r == '\\':
				b.WriteByte('\\')
				b.WriteRune(r)
			case r == '/':
				b.WriteString(`\/`)
			case r < 0x20 || r > 0x7e && r < 0xffff || i%3 == 1 && r < 0xffff:
				fmt.Fprintf(b, `\u%04x`, r)
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
		return
	}
	var t bytes.Buffer
	e := json.NewEncoder(&t)
	e.SetEscapeHTML(false)
	e.Encode(s)
	b.Write(bytes.TrimRight(t.Bytes(), "\n"))
}

func deepCopy(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[k] = deepCopy(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = deepCopy(e)
		}
		return l
	}
	return v
}

func canon(v any) string {
	b, err := json.Marshal(v) // map keys are sorted
	if err != nil {
		return fmt.Sprintf("!%v %v", err, v)
	}
	return string(b)
}
