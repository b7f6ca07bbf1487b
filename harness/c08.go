package main

import (
	"fmt"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"pgregory.net/rapid"
)

// C08: raw bytes and decoded document. Two engine paths are compared with each other,
// so documents and comparisons are not limited to what the model understands.

var wildKeys = []string{"a", "b", "c", "k", "name", "x-y", "a.b", "é", "Key1"}

func genWild(t *rapid.T, depth int) any {
	g := between(t, 0, 11)
	if depth <= 0 && g > 5 {
		g = between(t, 0, 5)
	}
	switch {
	case g <= 1:
		return genString(t, genOpt{odd: true})
	case g == 2:
		return pick(t, numbers...)
	case g == 3:
		return chance(t, 50)
	case g == 4:
		return pick(t, any(nil), any(""), any([]any{}), any(map[string]any{}), any("null"), any(0.0))
	case g == 5:
		return genUnitString(t)
	case g <= 8:
		m := map[string]any{}
		for i, n := 0, between(t, 0, 4); i < n; i++ {
			m[pick(t, wildKeys...)] = genWild(t, depth-1)
		}
		return m
	}
	l := []any{}
	same := chance(t, 60)
	for i, n := 0, between(t, 0, 4); i < n; i++ {
		if same && i > 0 && chance(t, 70) {
			if m, ok := l[0].(map[string]any); ok {
				c := map[string]any{}
				for _, k := range sortedKeys(m) {
					if chance(t, 80) {
						c[k] = genWild(t, depth-2)
					}
				}
				l = append(l, c)
				continue
			}
		}
		e := genWild(t, depth-1)
		l = append(l, e)
	}
	return l
}

func genWildDoc(t *rapid.T) any {
	m := map[string]any{}
	for i, n := 0, between(t, 1, 5); i < n; i++ {
		m[pick(t, wildKeys...)] = genWild(t, 3)
	}
	return m
}

// wildSteps walks a value at random.
func wildSteps(t *rapid.T, v any, max int, parent bool) ([]Step, []any) {
	var steps []Step
	cur := []any{v}
	for len(steps) < max {
		var ex any
		if len(cur) > 0 {
			ex = cur[between(t, 0, len(cur)-1)]
		}
		var s Step
		switch x := ex.(type) {
		case map[string]any:
			k := pick(t, wildKeys...)
			if len(x) > 0 && chance(t, 88) {
				keys := sortedKeys(x)
				k = keys[between(t, 0, len(keys)-1)]
			}
			s = keyStep(t, k, parent)
		case []any:
			if parent && chance(t, 60) {
				s = Step{All: true, Q: between(t, 0, 1)}
			} else {
				i := between(t, 0, len(x))
				s = Step{I: &i}
			}
		default:
			if chance(t, 92) {
				return steps, cur
			}
			s = keyStep(t, pick(t, wildKeys...), parent)
		}
		steps = append(steps, s)
		cur, _ = follow(v, steps)
		if chance(t, 25) {
			break
		}
	}
	return steps, cur
}

func genWildCond(t *rapid.T, sc scope) Cond {
	p := Path{Root: rootAbs}
	v := sc.doc
	if sc.in && chance(t, 85) {
		p.Root, v = rootRel, sc.rel
		if m, ok := v.(map[string]any); ok && len(m) == 1 && sc.kind == 'E' {
			for k, e := range m {
				if chance(t, 50) {
					p.Root, v = rootKey, any(k)
				} else {
					p.Root, v = rootValue, e
				}
			}
		} else if chance(t, 12) { // not one entry of an object
			p.Root = pick(t, rootKey, rootValue)
			if m, ok := v.(map[string]any); ok && len(m) > 0 {
				k := sortedKeys(m)[between(t, 0, len(m)-1)]
				v = m[k]
				if p.Root == rootKey {
					v = any(k)
				}
			}
		}
	}
	var res []any
	if p.Root == rootKey {
		res = []any{v}
	} else {
		p.Steps, res = wildSteps(t, v, 4, false)
		if len(p.Steps) == 0 && (p.Root == rootAbs) {
			p.Steps = []Step{{K: pick(t, "a", "b", "c")}}
			res, _ = follow(v, p.Steps)
		}
	}
	fixFirst(p.Steps, 4)
	if p.relative() && len(p.Steps) > 0 && p.Steps[0].I != nil {
		p.Steps, res = nil, []any{v} // a path has to go on with a dot after its root
	}
	actual := ""
	if len(res) == 1 {
		actual, _ = scalarText(res[0])
	}
	m, val := genCompare(t, actual, false, genOpt{odd: true})
	return Cond{Path: &p, Method: m, Val: val}
}

func genWildTree(t *rapid.T, sc scope, depth int) *Node {
	op := opCond
	if depth > 0 {
		op = pick(t, opAny, opAny, opAll, opAll, opAnd, opOr, opNot, opCond)
	}
	n := &Node{Op: op, Sp: between(t, 0, 7)}
	switch op {
	case opCond:
		c := genWildCond(t, sc)
		if !sc.in && chance(t, 30) {
			c.Ret = wildRet(t, rootAbs, sc.doc)
		}
		n.Cond = &c
	case opNot:
		n.Kids = []*Node{genWildTree(t, sc, depth-1)}
	case opAnd, opOr:
		for i, k := 0, between(t, 1, 3); i < k; i++ {
			n.Kids = append(n.Kids, genWildTree(t, sc, depth-1))
		}
	default:
		root, v := rootAbs, sc.doc
		if sc.in && chance(t, 80) {
			root, v = rootRel, sc.rel
		}
		p := Path{Root: root}
		p.Steps, _ = wildSteps(t, v, 4, true)
		if len(p.Steps) == 0 {
			p.Steps = []Step{{K: pick(t, "a", "b", "c")}}
		}
		plainFirst(p.Steps)
		if p.Steps[0].All || p.Steps[0].I != nil {
			p.Steps = append([]Step{{K: "a"}}, p.Steps...)
		}
		n.Parents = []Path{p}
		m := &model{msg: &Msg{HasDoc: true, Doc: sc.doc}}
		rel := sc.rel
		el := m.elements(p, &rel)
		in := scope{doc: sc.doc, in: true}
		if !p.multi() {
			in.kind = 'E'
		}
		if len(el) > 0 {
			in.rel = el[between(t, 0, len(el)-1)]
		}
		n.Kids = []*Node{genWildTree(t, in, depth-1)}
		if op == opAny && chance(t, 40) {
			n.Ret = wildRet(t, rootRel, in.rel)
		}
	}
	return n
}

// plainFirst: the first key of a parent or return value path cannot be quoted.
func plainFirst(steps []Step) {
	fixFirst(steps, 0)
	if len(steps) > 0 && (steps[0].K == "x-y" || steps[0].K == "a.b" || steps[0].K == "é") {
		steps[0].K = "a"
	}
}

func wildRet(t *rapid.T, root string, v any) map[string]Path {
	ret := map[string]Path{}
	for i, n := 0, between(t, 1, 2); i < n; i++ {
		p := Path{Root: root}
		p.Steps, _ = wildSteps(t, v, 3, true)
		for j := range p.Steps {
			if p.Steps[j].All {
				p.Steps[j] = Step{I: new(int)}
			}
		}
		if len(p.Steps) == 0 && root == rootAbs {
			p.Steps = []Step{{K: "a"}}
		}
		plainFirst(p.Steps)
		ret[fmt.Sprintf("v%d", i)] = p
	}
	return ret
}

// starStep tells whether some parent has a step [*]. The step also goes over the entries
// of objects, which come in no particular order.
func starStep(n *Node) bool {
	star := false
	n.walk(func(m *Node) {
		for _, p := range m.Parents {
			for _, s := range p.Steps {
				star = star || s.All && s.Q == 1
			}
		}
	})
	return star
}

func checkRawDecoded(c caseTree, x *ctx) error {
	r, err := loadTree(c.Tree, c.TreeSp, c.Loader)
	if err != nil {
		return err
	}
	ord := orderedData(c.Tree) && !starStep(c.Tree)
	var first bool
	var firstData data
	for i, mode := range []string{docIntf, docRaw, docBoth, "style"} {
		msg := c.Msg
		if mode == "style" {
			msg.Style, mode = (msg.Style+5)%16, docRaw
		}
		ok, d, err := runRule(r, &msg, mode, ord)
		if err != nil {
			return err
		}
		if i == 0 {
			first, firstData = ok, d
			x.class("truth %v", ok)
			x.class("data %v", len(d) > 0)
			continue
		}
		if ok != first {
			return violated("decoded: %v, %s (text style %d): %v\n%s\n%s", first, mode, msg.Style, ok, toYAML(c.Tree.generic()), renderDoc(msg.Doc, msg.Style))
		}
		if !sameData(d, firstData, ord) {
			return violated("decoded returns %s, %s (text style %d) returns %s\n%s\n%s", canon(firstData), mode, msg.Style, canon(d), toYAML(c.Tree.generic()), renderDoc(msg.Doc, msg.Style))
		}
	}
	return nil
}

func init() {
	addProbe("C08", "exponent-plus", func() error {
		n := leaf(Cond{Path: &Path{Root: rootAbs, Steps: []Step{{K: "n"}}}, Method: "GT", Val: Val{Kind: "num", S: "5"}})
		raw, doc := []byte(`{"n":1e+2}`), any(map[string]any{"n": 100.0})
		r, err := loadTree(n, 0, "yaml")
		if err != nil {
			return err
		}
		a, _, err := testConds(&me.MessageAttributes{RequestJsonRaw: &raw}, r)
		if err != nil {
			return err
		}
		b, _, err := testConds(&me.MessageAttributes{RequestRawInterface: &doc}, r)
		if err != nil {
			return err
		}
		if a != b {
			return violated("$.n GT 5 on {\"n\":1e+2} is %v for the raw and %v for the decoded document", a, b)
		}
		return nil
	})
	rules["C08"] = "non-trivial: some absolute path of the tree leads to something in the document"
	nt := func(c caseTree) bool {
		found := false
		c.Tree.walk(func(n *Node) {
			ps := append([]Path{}, n.Parents...)
			if n.Cond != nil && n.Cond.Path != nil {
				ps = append(ps, *n.Cond.Path)
			}
			for _, p := range ps {
				if !p.relative() {
					if r, _ := follow(c.Msg.Doc, p.Steps); len(r) > 0 {
						found = true
					}
				}
			}
		})
		return found
	}
	addFacet("C08", "typed", 6000, func(t *rapid.T) caseTree {
		o := genOpt{odd: true, ret: chance(t, 50), attrs: chance(t, 20)}
		c := genCaseTree(t, func(doc any) *Node { return genTree(t, scope{doc: doc}, between(t, 0, 3), o) }, o)
		return c
	}, func(c caseTree, x *ctx) error {
		x.nt(c.Msg.HasDoc && nt(c))
		return checkRawDecoded(c, x)
	})
	addFacet("C08", "nested", 4000, func(t *rapid.T) caseTree { return genNest(t, chance(t, 50)) }, func(c caseTree, x *ctx) error {
		x.nt(nt(c))
		return checkRawDecoded(c, x)
	})
	addFacet("C08", "wild", 9000, func(t *rapid.T) caseTree {
		c := caseTree{Msg: genMsg(t), Loader: "yaml"}
		doc := genWildDoc(t)
		c.Msg = withDoc(t, c.Msg, doc)
		c.Tree = genWildTree(t, scope{doc: doc}, between(t, 0, 3))
		return c
	}, func(c caseTree, x *ctx) error {
		x.nt(nt(c))
		return checkRawDecoded(c, x)
	})
}
