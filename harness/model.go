package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/netip"
	"regexp"
	"strconv"
	"strings"
)

// The reference model. It evaluates the generated AST over the decoded document and
// the message, and knows nothing about how the engine represents rules.

type model struct {
	msg     *Msg
	inexact bool // a comparison where rounding of doubles decides; such cases are left out
	defs    *Defs
}

// Defs are predefined strings and lists.
type Defs struct {
	Style   int                 `json:"style,omitempty"` // of the YAML text
	Strings map[string]string   `json:"strings,omitempty"`
	Lists   map[string][]string `json:"lists,omitempty"`
}

// ---------------------------------------------------------------- glob

// glob: '*' any run of characters, '?' exactly one, everything else literal.
func glob(pat, s string) bool {
	p, t := []rune(pat), []rune(s)
	// row[j]: p[:i] matches t[:j]
	row := make([]bool, len(t)+1)
	row[0] = true
	for _, c := range p {
		next := make([]bool, len(t)+1)
		if c == '*' {
			ok := false
			for j := 0; j <= len(t); j++ {
				ok = ok || row[j]
				next[j] = ok
			}
		} else {
			for j := 1; j <= len(t); j++ {
				next[j] = row[j-1] && (c == '?' || c == t[j-1])
			}
		}
		row = next
	}
	return row[len(t)]
}

func globAny(pats []string, s string) bool {
	for _, p := range pats {
		if glob(strings.TrimSpace(p), s) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- numbers

var decimal = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

var units = []struct {
	suffix string
	factor *big.Rat
}{
	{"%", big.NewRat(1, 100)},
	{"Ki", pow(1024, 1)}, {"Mi", pow(1024, 2)}, {"Gi", pow(1024, 3)}, {"Ti", pow(1024, 4)}, {"Pi", pow(1024, 5)}, {"Ei", pow(1024, 6)},
	{"K", pow(1000, 1)}, {"M", pow(1000, 2)}, {"G", pow(1000, 3)}, {"T", pow(1000, 4)}, {"P", pow(1000, 5)}, {"E", pow(1000, 6)},
	{"m", big.NewRat(1, 1000)},
}

func pow(b, e int64) *big.Rat {
	return new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(b), big.NewInt(e), nil))
}

// number is an exact value plus the double that the documented computation gives.
type number struct {
	exact *big.Rat
	f     float64
}

func parseNumber(s string) (number, bool) {
	mant, factor := s, big.NewRat(1, 1)
	for _, u := range units {
		if strings.HasSuffix(s, u.suffix) {
			mant, factor = strings.TrimSuffix(s, u.suffix), u.factor
			break
		}
	}
	if !decimal.MatchString(mant) {
		return number{}, false
	}
	r, ok := new(big.Rat).SetString(mant)
	if !ok {
		return number{}, false
	}
	f, err := strconv.ParseFloat(mant, 64)
	if err != nil {
		return number{}, false
	}
	ff, _ := factor.Float64()
	return number{new(big.Rat).Mul(r, factor), f * ff}, true
}

func (m *model) cmp(a, b number) int {
	c := a.exact.Cmp(b.exact)
	fc := 0
	if a.f < b.f {
		fc = -1
	} else if a.f > b.f {
		fc = 1
	}
	if c != fc {
		m.inexact = true
	}
	return c
}

func ordered(method string, c int) bool {
	switch method {
	case "EQ":
		return c == 0
	case "NEQ", "NE":
		return c != 0
	case "LT":
		return c < 0
	case "LE":
		return c <= 0
	case "GT":
		return c > 0
	case "GE":
		return c >= 0
	}
	panic("not an ordering: " + method)
}

// ---------------------------------------------------------------- paths

func getStep(v any, s Step) (any, bool) {
	switch {
	case s.I != nil:
		l, ok := v.([]any)
		if !ok || *s.I >= len(l) || *s.I < 0 {
			return nil, false
		}
		return l[*s.I], true
	default:
		o, ok := v.(map[string]any)
		if !ok {
			return nil, false
		}
		e, ok := o[s.K]
		return e, ok
	}
}

func deepFind(v any, key string, out *[]any) {
	switch x := v.(type) {
	case map[string]any:
		if e, ok := x[key]; ok {
			*out = append(*out, e)
		}
		for _, k := range sortedKeys(x) {
			deepFind(x[k], key, out)
		}
	case []any:
		for _, e := range x {
			deepFind(e, key, out)
		}
	}
}

// follow returns everything the steps lead to; wild tells whether a wildcard or deep
// scan was involved.
func follow(v any, steps []Step) (res []any, wild bool) {
	res = []any{v}
	for _, s := range steps {
		var next []any
		for _, c := range res {
			switch {
			case s.All:
				wild = true
				if l, ok := c.([]any); ok {
					next = append(next, l...)
				}
			case s.Deep:
				wild = true
				deepFind(c, s.K, &next)
			default:
				if e, ok := getStep(c, s); ok {
					next = append(next, e)
				}
			}
		}
		res = next
	}
	return res, wild
}

// rootOf is the value a path starts from.
func (m *model) rootOf(p Path, rel *any) (any, bool) {
	switch p.Root {
	case rootAbs, rootDot, rootWhole:
		return m.msg.Doc, m.msg.HasDoc
	case rootRel, rootStar:
		if rel == nil {
			return nil, false
		}
		return *rel, true
	case rootKey, rootValue:
		if rel == nil {
			return nil, false
		}
		o, ok := (*rel).(map[string]any)
		if !ok || len(o) != 1 {
			return nil, false
		}
		for k, v := range o {
			if p.Root == rootKey {
				return k, true
			}
			return v, true
		}
	}
	panic("bad root " + p.Root)
}

// elements a quantifier ranges over.
func (m *model) elements(p Path, rel *any) []any {
	start, ok := m.rootOf(p, rel)
	if !ok {
		return nil
	}
	out, wild := follow(start, p.Steps)
	if !wild {
		if len(out) == 0 {
			return nil
		}
		switch x := out[0].(type) {
		case []any:
			out = x
		case map[string]any:
			out = nil
			for _, k := range sortedKeys(x) {
				out = append(out, map[string]any{k: x[k]})
			}
			return out
		default:
			return nil
		}
	}
	// a list of nothing but lists stands for the elements of those
	for len(out) > 0 {
		var inner []any
		for _, e := range out {
			l, ok := e.([]any)
			if !ok {
				return out
			}
			inner = append(inner, l...)
		}
		out = inner
	}
	return out
}

// ---------------------------------------------------------------- conditions

func scalarText(v any) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case bool:
		return fmt.Sprint(x), true
	case float64:
		b, _ := json.Marshal(x)
		return string(b), true
	}
	return "", false
}

func isEmpty(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case string:
		return x == ""
	case []any:
		return len(x) == 0
	}
	return false
}

func (m *model) evalPathCond(c *Cond, rel *any) bool {
	method := strings.ToUpper(c.Method)
	start, ok := m.rootOf(*c.Path, rel)
	if !ok && (!c.Path.relative() && !m.msg.HasDoc || c.Path.relative() && rel == nil) {
		return false // nothing to look at
	}
	var v any
	found := false
	if ok {
		res, wild := follow(start, c.Path.Steps)
		if wild {
			v, found = any(res), len(res) > 0
			if len(res) == 1 {
				if _, isStr := res[0].(string); isStr {
					v = res[0]
				}
			}
		} else if len(res) == 1 {
			v, found = res[0], true
		}
	}
	if !found || isEmpty(v) {
		return method == "NEX"
	}
	switch method {
	case "EX":
		return true
	case "NEX":
		return false
	}
	text, scalar := scalarText(v)
	if !scalar {
		// composite: the generator only asks whether some string element contains a word
		hit := false
		re := regexp.MustCompile(c.Val.S)
		if l, ok := v.([]any); ok {
			for _, e := range l {
				if t, ok := scalarText(e); ok && re.MatchString(t) {
					hit = true
				}
			}
		}
		return hit == (method == "RE")
	}
	return m.compareText(text, method, c.Val)
}

func (m *model) compareText(text, method string, val Val) bool {
	switch method {
	case "RE":
		return regexp.MustCompile(val.text()).MatchString(text)
	case "NRE":
		return !regexp.MustCompile(val.text()).MatchString(text)
	case "IN", "NIN", "IS":
		in := false
		for _, e := range val.List {
			in = in || e == text
		}
		return in == (method != "NIN")
	}
	cv, cn := parseNumber(val.text())
	dv, dn := parseNumber(text)
	switch {
	case cn && dn:
		return ordered(method, m.cmp(dv, cv))
	case method == "EQ":
		return text == val.text()
	case method == "NEQ" || method == "NE":
		return text != val.text()
	}
	return false
}

func (m *model) evalAttrCond(c *Cond) bool {
	msg := m.msg
	method := strings.ToUpper(c.Method)
	num := func(f float64) bool {
		cv, ok := parseNumber(c.Val.text())
		if !ok {
			return method == "NEQ" || method == "NE"
		}
		switch method {
		case "EQ", "NEQ", "NE", "LT", "LE", "GT", "GE":
			r, _ := new(big.Rat).SetString(strconv.FormatFloat(f, 'f', -1, 64))
			return ordered(method, m.cmp(number{r, f}, cv))
		}
		return false
	}
	str := func(s string) bool {
		switch method {
		case "EQ":
			return glob(c.Val.text(), s)
		case "NEQ", "NE":
			return !glob(c.Val.text(), s)
		case "EX":
			return s != ""
		case "NEX":
			return s == ""
		case "RE", "NRE", "IN", "NIN", "IS":
			return m.compareText(s, method, c.Val)
		}
		return false
	}
	lit := func(a, b string) bool {
		switch method {
		case "EQ":
			return a == b
		case "NEQ", "NE":
			return a != b
		}
		return false
	}
	object := func(prefix string) (string, bool) {
		f, ok := strings.CutPrefix(c.Attr, prefix)
		if !ok {
			return "", false
		}
		return map[string]string{
			"$sender.namespace": msg.SrcNS, "$sender.cluster": msg.SrcCl,
			"$receiver.namespace": msg.DstNS, "$receiver.cluster": msg.DstCl,
		}[prefix+f], true
	}
	switch c.Attr {
	case "true", "TRUE":
		return true
	case "false", "FALSE":
		return false
	case "payloadSize":
		if n, err := strconv.ParseInt(c.Val.text(), 10, 64); err == nil {
			switch method {
			case "EQ", "NEQ", "NE", "LT", "LE", "GT", "GE":
				return ordered(method, big.NewInt(msg.Size).Cmp(big.NewInt(n))) // whole numbers are compared exactly
			}
		}
		return num(float64(msg.Size))
	case "utcHoursFromMidnight":
		return num(float64(msg.Sec) / 60 / 60)
	case "encryptionVersion":
		if msg.EncVer == nil {
			return false
		}
		return num(*msg.EncVer)
	case "encryptionType":
		return str(msg.EncType)
	case "domain":
		return str(msg.Domain)
	case "requestUseragent":
		return str(msg.UA)
	}
	if s, ok := object("$sender."); ok {
		if c.Val.Kind == "rattr" {
			return lit(s, map[string]string{"namespace": msg.DstNS, "cluster": msg.DstCl}[c.Val.S])
		}
		return str(s)
	}
	if s, ok := object("$receiver."); ok {
		return str(s)
	}
	label := func(prefix string, labels map[string]string) (bool, bool) {
		rest, ok := strings.CutPrefix(c.Attr, prefix+"[")
		if !ok {
			return false, false
		}
		s, has := labels[strings.TrimSuffix(rest, "]")]
		if !has {
			return method == "NEX", true
		}
		if method == "EX" || method == "NEX" {
			return method == "EX", true
		}
		if c.Val.Kind == "rlabel" {
			o, has := msg.DstLabels[c.Val.S]
			return has && lit(s, o), true
		}
		return str(s), true
	}
	if r, ok := label("senderLabel", msg.SrcLabels); ok {
		return r
	}
	if r, ok := label("receiverLabel", msg.DstLabels); ok {
		return r
	}
	panic("attribute " + c.Attr)
}

// ---------------------------------------------------------------- trees

type data = []map[string]any

// eval returns the truth of a tree and the values it returns.
func (m *model) eval(n *Node, rel *any) (bool, data) {
	switch n.Op {
	case opCond:
		if n.Cond.Path == nil {
			return m.evalAttrCond(n.Cond), nil
		}
		ok := m.evalPathCond(n.Cond, rel)
		if ok && len(n.Cond.Ret) > 0 {
			return ok, data{m.returned(n.Cond.Ret, rel)}
		}
		return ok, nil
	case opAnd:
		var d data
		for _, k := range n.Kids {
			ok, kd := m.eval(k, rel)
			if !ok {
				return false, nil
			}
			if len(kd) > 0 {
				d = kd
			}
		}
		return true, d
	case opOr:
		var d data
		res := false
		for _, k := range n.Kids {
			if ok, kd := m.eval(k, rel); ok {
				res = true
				d = append(d, kd...)
			}
		}
		return res, d
	case opNot:
		ok, _ := m.eval(n.Kids[0], rel)
		return !ok, nil
	case opAny, opAll:
		if !m.msg.HasDoc {
			return false, nil
		}
		any, all := false, true
		var d data
		for _, p := range n.Parents {
			for _, e := range m.elements(p, rel) {
				e := e
				ok, _ := m.eval(n.Kids[0], &e)
				if ok {
					any = true
					if len(n.Ret) > 0 {
						d = append(d, m.returned(n.Ret, &e))
					}
				} else {
					all = false
				}
			}
		}
		if n.Op == opAll {
			return all, nil
		}
		return any, d
	}
	panic("bad op")
}

func (m *model) returned(ret map[string]Path, rel *any) map[string]any {
	out := map[string]any{}
	for name, p := range ret {
		start, ok := m.rootOf(p, rel)
		if !ok {
			continue
		}
		if res, _ := follow(start, p.Steps); len(res) == 1 && res[0] != nil {
			out[name] = res[0]
		}
	}
	return out
}

// ---------------------------------------------------------------- rules

func ipMatch(elem, addr string) bool {
	a, err := netip.ParseAddr(addr)
	if err != nil {
		return false
	}
	a = a.Unmap()
	if elem == "*" {
		return a.Is4()
	}
	if p, err := netip.ParsePrefix(elem); err == nil {
		if p.Addr().Is4In6() && p.Bits() >= 96 { // an IPv4 block in IPv6 notation
			p = netip.PrefixFrom(p.Addr().Unmap(), p.Bits()-96)
		}
		return p.Contains(a)
	}
	e, err := netip.ParseAddr(elem)
	return err == nil && e.Unmap() == a
}

func partyMatch(p Party, name, ip, host string, receiver bool) bool {
	for _, e := range p.Names {
		switch {
		case p.Type == "subnet":
			if ipMatch(e, ip) {
				return true
			}
		case p.Type == "hostname" && receiver:
			if globAny([]string{e}, host) {
				return true
			}
		case p.Type == "workload" || p.Type == "*":
			if globAny([]string{e}, name) {
				return true
			}
		}
	}
	return false
}

var readOps = map[string]bool{"GET": true, "HEAD": true, "OPTIONS": true, "TRACE": true, "CONSUME": true, "READ": true, "read": true}
var writeOps = map[string]bool{"POST": true, "PUT": true, "DELETE": true, "PRODUCE": true}

func opMatch(ops []string, method string) bool {
	if len(ops) == 1 {
		switch ops[0] {
		case "read", "READ":
			return readOps[method]
		case "write", "WRITE":
			return writeOps[method]
		}
	}
	return globAny(ops, method)
}

func (m *model) frameMatches(r RuleAST) bool {
	msg := m.msg
	if !partyMatch(r.Sender, msg.Src, msg.SrcIP, "", false) || !partyMatch(r.Receiver, msg.Dst, msg.DstIP, msg.Host, true) {
		return false
	}
	if !opMatch(r.Ops, msg.Method) {
		return false
	}
	switch {
	case r.Proto == "*":
		return true
	case r.Proto == "tcp":
		return globAny(r.ResNames, msg.Port)
	}
	return strings.EqualFold(r.Proto, msg.Proto) && (r.ResType == "*" || r.ResType == msg.Type) && globAny(r.ResNames, msg.Path)
}

var decisionCode = map[string]int{"allow": 1, "alert": 2, "block": 3}

// rule returns the result code of one rule and the data it returns.
func (m *model) rule(r RuleAST) (int, data) {
	if !m.frameMatches(r) {
		return 0, nil
	}
	var d data
	if r.Tree != nil {
		ok, td := m.eval(r.Tree, nil)
		if !ok {
			return 0, nil
		}
		d = td
	}
	return decisionCode[strings.ToLower(r.Decision)], d
}
