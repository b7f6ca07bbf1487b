package main

import (
	"fmt"
	"reflect"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"pgregory.net/rapid"
)

var rules = map[string]string{}

func docModes(m *Msg) []string {
	if !m.HasDoc {
		return []string{docRaw}
	}
	return []string{docRaw, docIntf, docBoth}
}

// ---------------------------------------------------------------- C01

type caseRules struct {
	Rules  []RuleAST `json:"rules"`
	Msg    Msg       `json:"msg"`
	Loader string    `json:"loader"`
	Perm   []int     `json:"perm,omitempty"`
}

func genCaseRules(t *rapid.T, max int, o genOpt, tight int) caseRules {
	c := caseRules{Msg: genMsg(t), Loader: styled(t, loaders...)}
	doc := genDoc(t, o)
	c.Msg = withDoc(t, c.Msg, doc)
	n := between(t, 0, max)
	for i := 0; i < n; i++ {
		r := genFrame(t, i, !chance(t, tight))
		if chance(t, 60) {
			r.Tree = genTree(t, scope{doc: doc}, between(t, 0, 2), o)
			r.TreeSp = between(t, 0, 2)
		}
		c.Rules = append(c.Rules, r)
	}
	if n > 0 {
		c.Perm = rapid.Permutation(seq(n)).Draw(t, "perm")
	}
	return c
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func init() {
	rules["C01"] = "non-trivial: at least two rules, at least one applies and at least one does not, or two different decisions apply"
	addFacet("C01", "precedence", 6000, func(t *rapid.T) caseRules {
		return genCaseRules(t, 6, genOpt{attrs: true}, 15)
	}, checkPrecedence)
	addFacet("C01", "many-rules", 400, func(t *rapid.T) caseRules {
		return genCaseRules(t, 40, genOpt{attrs: true, noQuant: true}, 5)
	}, checkPrecedence)
}

func checkPrecedence(c caseRules, x *ctx) error {
	m := &model{msg: &c.Msg}
	want := make([]int, len(c.Rules))
	wantData := make([]data, len(c.Rules))
	for i, r := range c.Rules {
		want[i], wantData[i] = m.rule(r)
	}
	if m.inexact {
		x.class("left out: rounding")
		return nil
	}
	max, idx, kinds := 0, -1, map[int]bool{}
	applied := []int{}
	for i, w := range want {
		if w > 0 {
			applied = append(applied, i)
			kinds[w] = true
		}
		if w > max {
			max, idx = w, i
		}
	}
	x.nt(len(c.Rules) >= 2 && (len(applied) > 0 && len(applied) < len(c.Rules) || len(kinds) > 1))
	x.class("decision %d", max)
	x.class("distinct decisions %d", len(kinds))
	loaded, err := mustLoad(c.Rules, c.Loader)
	if err != nil {
		return err
	}
	for _, mode := range docModes(&c.Msg) {
		o, err := checkAll(buildMsg(&c.Msg, mode), &loaded)
		if err != nil {
			return err
		}
		if !intsEqual(o.Results, want) {
			return violated("%s: per-rule results %v, expected %v", mode, o.Results, want)
		}
		if o.Decision != max || o.Text != me.DecisionNames[max] || o.Text != decisionText[max] {
			return violated("%s: decision %d %q, expected %d", mode, o.Decision, o.Text, max)
		}
		if o.Rule != idx {
			return violated("%s: relevant rule %d, expected %d", mode, o.Rule, idx)
		}
		if !intsEqual(o.Applied, applied) {
			return violated("%s: applied rules %v, expected %v", mode, o.Applied, applied)
		}
		desc := ""
		if idx >= 0 {
			desc = c.Rules[idx].Meta["description"]
		}
		if o.Desc != desc {
			return violated("%s: description %q, expected %q", mode, o.Desc, desc)
		}
		if len(o.Extra) != len(c.Rules) {
			return violated("%s: return data for %d of %d rules", mode, len(o.Extra), len(c.Rules))
		}
		for i := range c.Rules {
			ord := c.Rules[i].Tree == nil || orderedData(c.Rules[i].Tree)
			if !sameData(o.Extra[i], wantData[i], ord) {
				return violated("%s: rule %d returns %s, expected %s", mode, i, canon(o.Extra[i]), canon(wantData[i]))
			}
			code, d, err := checkOne(buildMsg(&c.Msg, mode), &loaded.Rules[i])
			if err != nil {
				return err
			}
			if code != o.Results[i] || !sameData(d, o.Extra[i], ord) {
				return violated("%s: rule %d alone gives %d %s, in the list %d %s", mode, i, code, canon(d), o.Results[i], canon(o.Extra[i]))
			}
			var code2 int
			if gerr := guarded("Rule.Check", func() { code2, _ = loaded.Rules[i].Check(buildMsg(&c.Msg, mode)) }); gerr != nil {
				return gerr
			}
			if code2 != code {
				return violated("%s: rule %d: Rule.Check gives %d, CheckOneRule %d", mode, i, code2, code)
			}
		}
		// permutation
		if len(c.Perm) == len(c.Rules) && len(c.Rules) > 1 {
			perm := me.Rules{}
			for _, p := range c.Perm {
				perm.Rules = append(perm.Rules, loaded.Rules[p])
			}
			po, err := checkAll(buildMsg(&c.Msg, mode), &perm)
			if err != nil {
				return err
			}
			if po.Decision != o.Decision {
				return violated("%s: permuted rules decide %d, original order %d", mode, po.Decision, o.Decision)
			}
			for i, p := range c.Perm {
				if po.Results[i] != o.Results[p] {
					return violated("%s: result of rule %d changes with its position", mode, p)
				}
			}
			// prefixes: a rule more never weakens the decision
			last := 0
			for k := 0; k <= len(perm.Rules); k++ {
				sub := me.Rules{Rules: perm.Rules[:k]}
				so, err := checkAll(buildMsg(&c.Msg, mode), &sub)
				if err != nil {
					return err
				}
				if so.Decision < last {
					return violated("%s: adding rule %d weakens the decision from %d to %d", mode, c.Perm[k-1], last, so.Decision)
				}
				last = so.Decision
			}
		}
	}
	return nil
}

var decisionText = []string{"rules do not apply to message - block by default", "allow", "alert", "block"}

var _ = reflect.DeepEqual
var _ = fmt.Sprint
