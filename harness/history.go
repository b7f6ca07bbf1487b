package main

import (
	"fmt"
	"reflect"
	"sort"
	"sync"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"pgregory.net/rapid"
)

// C13: no history and no concurrency changes an outcome. C17: coverage.

type histOp struct {
	Op   string `json:"op"`
	Msg  int    `json:"msg,omitempty"`
	Rule int    `json:"rule,omitempty"`
	Mode string `json:"mode,omitempty"`
	Arg  int    `json:"arg,omitempty"`
}

type caseHist struct {
	Rules  []RuleAST `json:"rules"`
	Msgs   []Msg     `json:"msgs"`
	Ops    []histOp  `json:"ops"`
	Loader string    `json:"loader"`
	Lazy   bool      `json:"lazy,omitempty"` // rules are prepared by their first use
	N      int       `json:"n,omitempty"`    // goroutines
}

var histOps = []string{"check", "check", "check", "checkone", "testconds", "prepare", "validate", "hash", "write", "mongo", "print", "coverage", "copy", "inplace", "inplace-all", "failed-prepare"}

func genHist(t *rapid.T, maxRules, maxMsgs, maxOps int) caseHist {
	o := genOpt{attrs: true, odd: chance(t, 40), ret: chance(t, 30)}
	c := caseHist{Loader: styled(t, loaders...), Lazy: chance(t, 30)}
	doc := genDoc(t, o)
	for i, n := 0, between(t, 1, maxMsgs); i < n; i++ {
		m := genMsg(t)
		m.ID = fmt.Sprintf("m%d", i)
		if i > 0 && chance(t, 25) { // nothing but the contents tells two messages apart
			p := c.Msgs[between(t, 0, i-1)]
			if chance(t, 60) {
				doc := m.Doc
				m = p
				m.Doc = doc
				if chance(t, 30) {
					setMsgField(&m, pick(t, msgFields[1:]...), pick(t, "a", "b", "prod", "GET", ""), between(t, 0, 30))
				}
			}
			m.ID = p.ID
		}
		if i == 0 || chance(t, 50) {
			m = withDoc(t, m, doc)
		} else if chance(t, 90) {
			m = withDoc(t, m, genDoc(t, o))
		}
		c.Msgs = append(c.Msgs, m)
	}
	for i, n := 0, between(t, 1, maxRules); i < n; i++ {
		r := genFrame(t, i, chance(t, 90))
		if chance(t, 90) {
			r.Tree = genTree(t, scope{doc: doc}, between(t, 0, 3), o)
			r.TreeSp = between(t, 0, 2)
		}
		c.Rules = append(c.Rules, r)
	}
	for i, n := 0, between(t, 1, maxOps); i < n; i++ {
		c.Ops = append(c.Ops, histOp{pick(t, histOps...), between(t, 0, len(c.Msgs)-1), between(t, 0, len(c.Rules)-1), pick(t, docRaw, docIntf, docBoth), between(t, 0, 3)})
	}
	return c
}

// view is the outcome of one check in a form that can be compared.
func view(o outcome, ord []bool) string {
	var extra [][]string
	for i, d := range o.Extra {
		c := cleanData(d)
		if i < len(ord) && !ord[i] {
			sort.Strings(c)
		}
		extra = append(extra, c)
	}
	return canon([]any{o.Decision, o.Text, o.Rule, o.Results, o.Applied, o.Desc, extra})
}

type snapshot struct {
	msg  me.MessageAttributes
	raw  string
	intf string
	// identity of what the message points to
	rawPtr  *[]byte
	intfPtr *interface{}
}

func snap(m *me.MessageAttributes) snapshot {
	s := snapshot{msg: *m, rawPtr: m.RequestJsonRaw, intfPtr: m.RequestRawInterface}
	s.msg.SourceLabels, s.msg.DestinationLabels = copyLabels(m.SourceLabels), copyLabels(m.DestinationLabels)
	if m.EncryptionVersion != nil {
		v := *m.EncryptionVersion
		s.msg.EncryptionVersion = &v
	}
	if m.RequestJsonRaw != nil {
		s.raw = string(*m.RequestJsonRaw)
	}
	if m.RequestRawInterface != nil {
		s.intf = canon(*m.RequestRawInterface)
	}
	return s
}

func (s snapshot) changed(m *me.MessageAttributes) string {
	n := snap(m)
	if s.raw != n.raw {
		return fmt.Sprintf("raw document %s becomes %s", s.raw, n.raw)
	}
	if s.intf != n.intf {
		return fmt.Sprintf("decoded document %s becomes %s", s.intf, n.intf)
	}
	if (s.rawPtr == nil) != (n.rawPtr == nil) || (s.intfPtr == nil) != (n.intfPtr == nil) {
		return "a document appears or disappears"
	}
	a, b := s.msg, n.msg
	// what the relative documents hold between checks is not an attribute of the message
	a.RequestJsonRaw, b.RequestJsonRaw, a.RequestRawInterface, b.RequestRawInterface = nil, nil, nil, nil
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("%+v becomes %+v", a, b)
	}
	return ""
}

func copyRules(rs me.Rules) me.Rules {
	return me.Rules{Rules: append([]me.Rule{}, rs.Rules...)}
}

func checkHist(c caseHist, x *ctx) error {
	ord := make([]bool, len(c.Rules))
	for i, r := range c.Rules {
		ord[i] = ruleOrd(r)
	}
	load := func() (me.Rules, error) {
		if !c.Lazy {
			return mustLoad(c.Rules, c.Loader)
		}
		var rules me.Rules
		var err error
		if gerr := guarded("loading", func() { rules, err = loadRules(c.Rules, c.Loader) }); gerr != nil {
			return rules, gerr
		}
		if err != nil {
			return rules, violated("a valid rule is rejected: %v", err)
		}
		return rules, nil
	}
	type key struct {
		msg  int
		mode string
	}
	want := map[key]string{}
	fresh := func(k key) (string, error) {
		if s, ok := want[k]; ok {
			return s, nil
		}
		rules, err := load()
		if err != nil {
			return "", err
		}
		o, err := checkAll(buildMsg(&c.Msgs[k.msg], k.mode), &rules)
		if err != nil {
			return "", err
		}
		if o.Decision > 0 {
			x.class("applies")
		}
		want[k] = view(o, ord)
		return want[k], nil
	}
	rules, err := load()
	if err != nil {
		return err
	}
	forms := make([]string, len(rules.Rules))
	hashes := make([]string, len(rules.Rules))
	for i := range rules.Rules {
		if forms[i], err = written(&rules.Rules[i]); err != nil {
			return err
		}
		if hashes[i], err = ruleHash(&rules.Rules[i]); err != nil {
			return err
		}
	}
	msgs := map[key]*me.MessageAttributes{}
	snaps := map[key]snapshot{}
	get := func(k key) *me.MessageAttributes {
		if msgs[k] == nil {
			msgs[k] = buildMsg(&c.Msgs[k.msg], k.mode)
			snaps[k] = snap(msgs[k])
		}
		return msgs[k]
	}
	inplace := false
	for step, op := range c.Ops {
		if op.Msg >= len(c.Msgs) || op.Rule >= len(c.Rules) {
			continue
		}
		x.class("%s", op.Op)
		k := key{op.Msg, op.Mode}
		m := get(k)
		r := &rules.Rules[op.Rule]
		switch op.Op {
		case "check":
			w, err := fresh(k)
			if err != nil {
				return err
			}
			o, err := checkAll(m, &rules)
			if err != nil {
				return err
			}
			if g := view(o, ord); g != w {
				return violated("step %d: the check of message %d (%s) gives %s, at first %s", step, op.Msg, op.Mode, g, w)
			}
		case "checkone":
			if _, _, err := checkOne(m, r); err != nil {
				return err
			}
		case "testconds":
			if _, _, err := testConds(m, r); err != nil {
				return err
			}
		case "prepare":
			var perr error
			if err := guarded("preparation", func() { perr = r.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) }); err != nil {
				return err
			}
			if perr != nil {
				return violated("step %d: preparing again fails: %v", step, perr)
			}
		case "validate":
			var verr error
			if err := guarded("validation", func() { verr = me.ValidateRule(r) }); err != nil {
				return err
			}
			if verr != nil {
				return violated("step %d: validation of a valid rule fails: %v", step, verr)
			}
		case "hash":
			if _, err := ruleHash(r); err != nil {
				return err
			}
		case "write":
			if _, err := written(r); err != nil {
				return err
			}
			if _, err := through(r, "bson"); err != nil {
				return err
			}
		case "mongo":
			if err := guarded("database translation", func() { r.ToMongoQuery("raw") }); err != nil {
				return err
			}
		case "print":
			if err := guarded("printing", func() { _ = me.GetRuleStrings(r); _ = r.String() }); err != nil {
				return err
			}
		case "coverage":
			mm := me.Messages{Messages: []me.MessageAttributes{*m}}
			if err := guarded("coverage", func() { me.Coverage(&mm, &rules) }); err != nil {
				return err
			}
		case "copy":
			rules = copyRules(rules)
		case "inplace": // the other way to prepare rules, on the rule itself
			inplace = true
			var perr error
			if err := guarded("preparation in place", func() { perr = me.PrepareOneRule(r) }); err != nil {
				return err
			}
			if perr != nil {
				return violated("step %d: preparing a valid rule fails: %v", step, perr)
			}
		case "inplace-all":
			inplace = true
			var perr error
			if err := guarded("preparation of all in place", func() { perr = me.PrepareRules(&rules) }); err != nil {
				return err
			}
			if perr != nil {
				return violated("step %d: preparing valid rules fails: %v", step, perr)
			}
		case "failed-prepare": // a rule that fails must not spoil others
			bad := me.Rule{Sender: me.Sender{SenderName: "#nowhere"}}
			if err := guarded("preparation", func() { bad.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) }); err != nil {
				return err
			}
		default:
			panic(op.Op)
		}
		for k2, m2 := range msgs {
			if s := snaps[k2].changed(m2); s != "" {
				return violated("step %d (%s): message %d changes: %s", step, op.Op, k2.msg, s)
			}
		}
		if !inplace { // preparation in place is visible in the written form by design
			w, err := written(r)
			if err != nil {
				return err
			}
			if w != forms[op.Rule] {
				return violated("step %d (%s): the written form of rule %d changes from %s to %s", step, op.Op, op.Rule, forms[op.Rule], w)
			}
		}
		h, err := ruleHash(r)
		if err != nil {
			return err
		}
		if h != hashes[op.Rule] {
			return violated("step %d (%s): the hash of rule %d changes from %s to %s", step, op.Op, op.Rule, hashes[op.Rule], h)
		}
	}
	// at the end every message still gets its outcome, in reverse order too
	for pass := 0; pass < 2; pass++ {
		for i := range c.Msgs {
			j := i
			if pass == 1 {
				j = len(c.Msgs) - 1 - i
			}
			for _, mode := range docModes(&c.Msgs[j]) {
				k := key{j, mode}
				w, err := fresh(k)
				if err != nil {
					return err
				}
				o, err := checkAll(get(k), &rules)
				if err != nil {
					return err
				}
				if g := view(o, ord); g != w {
					return violated("after the history: message %d (%s) gives %s, at first %s", j, mode, g, w)
				}
			}
		}
	}
	return nil
}

func checkConcurrent(c caseHist, x *ctx) error {
	ord := make([]bool, len(c.Rules))
	for i, r := range c.Rules {
		ord[i] = ruleOrd(r)
	}
	rules, err := mustLoad(c.Rules, c.Loader)
	if err != nil {
		return err
	}
	modes := []string{docRaw, docIntf, docBoth}
	want := map[string]string{}
	for i := range c.Msgs {
		for _, mode := range modes {
			o, err := checkAll(buildMsg(&c.Msgs[i], mode), &rules)
			if err != nil {
				return err
			}
			if o.Decision > 0 {
				x.class("applies")
			}
			want[fmt.Sprint(i, mode)] = view(o, ord)
		}
	}
	var wg sync.WaitGroup
	errs := make([]error, c.N)
	start := make(chan struct{})
	for g := 0; g < c.N; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for round := 0; round < 2; round++ {
				for i := range c.Msgs {
					j := (i + g) % len(c.Msgs)
					mode := modes[(g+round+i)%3]
					m := buildMsg(&c.Msgs[j], mode)
					o, err := checkAll(m, &rules)
					if err != nil {
						errs[g] = err
						return
					}
					if v := view(o, ord); v != want[fmt.Sprint(j, mode)] {
						errs[g] = violated("goroutine %d: message %d (%s) gives %s, sequentially %s", g, j, mode, v, want[fmt.Sprint(j, mode)])
						return
					}
					if err := guarded("hashing", func() { me.RuleMD5Hash(rules.Rules[j%len(rules.Rules)]) }); err != nil {
						errs[g] = err
						return
					}
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

type caseCover struct {
	Rules  []RuleAST `json:"rules"`
	Msgs   []Msg     `json:"msgs"`
	Loader string    `json:"loader"`
	Mode   string    `json:"mode"`
}

func checkCoverage(c caseCover, x *ctx) error {
	rules, err := mustLoad(c.Rules, c.Loader)
	if err != nil {
		return err
	}
	in := me.Messages{}
	for i := range c.Msgs {
		in.Messages = append(in.Messages, *buildMsg(&c.Msgs[i], c.Mode))
	}
	var mc map[string]me.MessageCoverage
	var rc map[string][]string
	if err := guarded("coverage", func() { mc, rc = me.Coverage(&in, &rules) }); err != nil {
		return err
	}
	if len(mc) != len(c.Msgs) || len(rc) != len(c.Rules) {
		return violated("%d messages and %d rules, %d and %d entries", len(c.Msgs), len(c.Rules), len(mc), len(rc))
	}
	byRule := map[string][]string{}
	mix := map[bool]bool{}
	for i := range c.Msgs {
		m := &model{msg: &c.Msgs[i]}
		var ids []string
		var decs []int
		max := 0
		for _, r := range c.Rules {
			w, _ := m.rule(r)
			if w > 0 {
				ids = append(ids, r.ID)
				decs = append(decs, w)
				byRule[r.ID] = append(byRule[r.ID], c.Msgs[i].ID)
			}
			mix[w > 0] = true
			if w > max {
				max = w
			}
		}
		if m.inexact {
			x.class("left out: rounding")
			return nil
		}
		got, ok := mc[c.Msgs[i].ID]
		if !ok {
			return violated("message %s has no entry", c.Msgs[i].ID)
		}
		x.class("covered %v", max > 0)
		if got.Covered != (max > 0) || got.Decision != max || !sameList(got.IdsOfCoveringRules, ids) || !intsEqual(got.DecisionsOfCoveringRules, decs) {
			return violated("message %s: %+v, expected covered %v decision %d rules %v decisions %v", c.Msgs[i].ID, got, max > 0, max, ids, decs)
		}
		o, err := checkAll(buildMsg(&c.Msgs[i], c.Mode), &rules)
		if err != nil {
			return err
		}
		if o.Decision != got.Decision {
			return violated("message %s: coverage decides %d, checking decides %d", c.Msgs[i].ID, got.Decision, o.Decision)
		}
	}
	for _, r := range c.Rules {
		got, ok := rc[r.ID]
		if !ok {
			return violated("rule %s has no entry", r.ID)
		}
		if !sameList(got, byRule[r.ID]) {
			return violated("rule %s covers %v, expected %v", r.ID, got, byRule[r.ID])
		}
	}
	x.nt(len(c.Msgs) > 1 && len(c.Rules) > 1 && len(mix) == 2)
	return nil
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	rules["C13"] = "non-trivial: at least three operations (or two goroutines) and a rule with a conditions tree"
	nt := func(c caseHist) bool {
		for _, r := range c.Rules {
			if r.Tree != nil {
				return len(c.Ops) >= 3 || c.N >= 2
			}
		}
		return false
	}
	addFacet("C13", "history", 3000, func(t *rapid.T) caseHist { return genHist(t, 3, 3, 12) }, func(c caseHist, x *ctx) error {
		x.nt(nt(c))
		return checkHist(c, x)
	})
	addFacet("C13", "race", 250, func(t *rapid.T) caseHist {
		c := genHist(t, 3, 4, 1)
		c.Ops, c.Lazy, c.N = nil, false, between(t, 2, 6)
		return c
	}, func(c caseHist, x *ctx) error {
		x.nt(nt(c))
		x.class("goroutines %d", c.N)
		return checkConcurrent(c, x)
	}).race = true

	rules["C17"] = "non-trivial: at least two messages and two rules, some rule applies to some message and some does not"
	addFacet("C17", "coverage", 3000, func(t *rapid.T) caseCover {
		o := genOpt{attrs: true}
		c := caseCover{Loader: styled(t, loaders...), Mode: pick(t, docRaw, docIntf)}
		doc := genDoc(t, o)
		for i, n := 0, pick(t, 3, 2, 4, 5, 1, 0, 6); i < n; i++ {
			m := genMsg(t)
			m.ID = fmt.Sprintf("m%d", n-i)
			if chance(t, 80) {
				m = withDoc(t, m, doc)
			}
			c.Msgs = append(c.Msgs, m)
		}
		for i, n := 0, pick(t, 3, 2, 4, 5, 1, 0, 6); i < n; i++ {
			r := genFrame(t, i, chance(t, 92))
			r.ID = fmt.Sprintf("r%d", (i*3+1)%7)
			if chance(t, 60) {
				r.Tree = genTree(t, scope{doc: doc}, between(t, 0, 2), o)
			}
			c.Rules = append(c.Rules, r)
		}
		return c
	}, checkCoverage)
}
