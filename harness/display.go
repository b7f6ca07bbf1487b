package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"pgregory.net/rapid"
)

// C23: what a rule looks like when it is displayed.

func retText(ret map[string]Path) string {
	var l []string
	for _, k := range sortedKeys(ret) {
		l = append(l, k+":"+ret[k].text())
	}
	return "map[" + strings.Join(l, " ") + "]"
}

// shown is the text of a conditions tree.
func shown(n *Node) string {
	list := func(sep string) string {
		var l []string
		for _, k := range n.Kids {
			l = append(l, shown(k))
		}
		if len(l) == 1 {
			return l[0]
		}
		sort.Strings(l)
		return "(" + strings.Join(l, sep) + ")"
	}
	switch n.Op {
	case opCond:
		return fmt.Sprintf("<%s-%s-%s>", n.Cond.attribute(), n.Cond.Method, valText(n.Cond.Val))
	case opAnd:
		return list(" && ")
	case opOr:
		return list(" || ")
	case opNot:
		return "!(" + shown(n.Kids[0]) + ")"
	}
	var ps []string
	for i, p := range n.Parents {
		t := p.text()
		if i > 0 && n.Sp&4 != 0 {
			t = strings.TrimPrefix(t, "jsonpath:")
		}
		ps = append(ps, t)
	}
	return fmt.Sprintf("[%s<%s;%s>:%s]", n.Op, strings.Join(ps, ","), retText(n.Ret), shown(n.Kids[0]))
}

type caseShow struct {
	Rule   RuleAST `json:"rule"`
	Msg    Msg     `json:"msg"`
	Loader string  `json:"loader"`
	Unset  int     `json:"unset,omitempty"` // fields that are not written
	Use    int     `json:"use"`
	Via    string  `json:"via,omitempty"`
}

// captured runs f with the standard output sent to a file.
func captured(f func() error) (string, error) {
	name := filepath.Join(scratch(), "stdout")
	out, err := os.Create(name)
	must(err)
	old := os.Stdout
	os.Stdout = out
	err = f()
	os.Stdout = old
	_, e := out.Seek(0, io.SeekStart)
	must(e)
	b, e := io.ReadAll(out)
	must(e)
	must(out.Close())
	return string(b), err
}

func checkShow(c caseShow, x *ctx) error {
	r := c.Rule
	g := r.generic()
	or := func(bit int, key, text string) string {
		if c.Unset&bit == 0 {
			return text
		}
		for i := range g {
			if g[i].Key == key {
				g = append(g[:i:i], g[i+1:]...)
				break
			}
		}
		return "default"
	}
	proto, op, dec := or(1, "protocol", r.Proto), or(2, "operation", joinSep(r.Ops, r.OpSep)), or(4, "decision", r.Decision)
	without := func(bit int, key, typeKey string) bool {
		if c.Unset&bit == 0 {
			return false
		}
		for i := range g {
			if g[i].Key != key {
				continue
			}
			for j, f := range g[i].Value.(obj) {
				if f.Key == typeKey {
					o := append(obj{}, g[i].Value.(obj)[:j]...)
					g[i].Value = append(o, g[i].Value.(obj)[j+1:]...)
					x.class("no %s", typeKey)
					return true
				}
			}
		}
		return false
	}
	noType := map[int]bool{0: without(8, "sender", "senderType"), 1: without(16, "receiver", "receiverType"), 3: without(32, "resource", "resourceType")}
	conds := ""
	if r.Tree != nil {
		conds = shown(r.Tree)
	}
	var rules me.Rules
	var err error
	if gerr := guarded("loading", func() { rules, err = loadText(obj{{Key: "rules", Value: []any{g}}}, c.Loader) }); gerr != nil {
		return gerr
	}
	if err != nil {
		return violated("a valid rule is rejected: %v", err)
	}
	rule := &rules.Rules[0]
	if c.Via != "" {
		if rule, err = through(rule, c.Via); err != nil {
			return err
		}
	}
	if c.Use&1 != 0 {
		if _, err := look(rule, []Msg{c.Msg}, true); err != nil {
			return err
		}
	}
	if c.Use&2 != 0 {
		if err := guarded("hashing", func() { me.RuleMD5Hash(*rule) }); err != nil {
			return err
		}
	}
	if c.Use&4 != 0 {
		var perr error
		if err := guarded("preparation", func() { perr = me.PrepareOneRuleWithPredefinedStrings(rule, me.PredefinedStringsAndLists{}) }); err != nil {
			return err
		}
		if perr != nil {
			return violated("a valid rule cannot be prepared: %v", perr)
		}
	}
	want := [][2]string{
		{"Sender (type:name):", r.Sender.Type + ":" + r.Sender.text()},
		{"Receiver (type:name):", r.Receiver.Type + ":" + r.Receiver.text()},
		{"Protocol:", proto},
		{"Resource (type:name):", r.ResType + ":" + joinSep(r.ResNames, r.ResSep)},
		{"Operation :", op},
		{"Conditions :", conds},
		{"Decision:", dec},
	}
	var s me.RuleStrings
	if err := guarded("GetRuleStrings", func() { s = me.GetRuleStrings(rule) }); err != nil {
		return err
	}
	for i, got := range []string{s.SenderString, s.ReceiverString, s.ProtocolString, s.ResourceString, s.OperationString, s.ConditionsString, s.DecisionString} {
		if noType[i] { // there is a placeholder for the type
			_, name, _ := strings.Cut(want[i][1], ":")
			if !strings.HasSuffix(got, ":"+name) {
				return violated("displayed %s %q, expected the name %q", want[i][0], got, name)
			}
			want[i][1] = got
		}
		if got != want[i][1] {
			return violated("displayed %s %q, expected %q", want[i][0], got, want[i][1])
		}
	}
	text, err := captured(func() error { return guarded("Print", func() { rule.Print() }) })
	if err != nil {
		return err
	}
	exp := ""
	for _, w := range want {
		if w[0] == "Conditions :" && w[1] == "" {
			continue
		}
		exp += w[0] + " " + w[1] + "\n"
	}
	if text != exp {
		return violated("printed\n%s\nexpected\n%s", text, exp)
	}
	if conds == "" {
		conds = "no conditions"
	}
	var cs, rs string
	if err := guarded("String", func() { cs, rs = me.RuleConditionsToString(*rule), rule.String() }); err != nil {
		return err
	}
	if cs != conds || !strings.HasSuffix(rs, conds) {
		return violated("conditions as text %q in %q, expected %q", cs, rs, conds)
	}
	return nil
}

func init() {
	rules["C23"] = "non-trivial: the rule has a conditions tree of at least two nodes"
	addFacet("C23", "display", 5000, func(t *rapid.T) caseShow {
		o := genOpt{odd: true, attrs: true, ret: chance(t, 30)}
		c := caseShow{Loader: styled(t, loaders...), Use: between(t, 0, 7)}
		var msgs []Msg
		c.Rule, msgs = genStoredRule(t, o)
		c.Msg = msgs[0]
		if chance(t, 20) {
			c.Unset = between(t, 1, 63)
			c.Use = 0
		}
		if chance(t, 30) {
			c.Via = pick(t, stores...)
		}
		return c
	}, func(c caseShow, x *ctx) error {
		x.nt(c.Rule.Tree != nil && c.Rule.Tree.depth() > 1)
		x.class("conditions %v", c.Rule.Tree != nil)
		x.class("used %d", c.Use)
		return checkShow(c, x)
	})
}
