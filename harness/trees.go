package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"pgregory.net/rapid"
)

// Conditions trees: C04 (boolean nodes), C05 (quantifiers), C06 (JSON path conditions),
// C07 (attribute conditions), C08 (raw and decoded documents), C09 (return values).

type caseTree struct {
	Tree   *Node  `json:"tree"`
	Msg    Msg    `json:"msg"`
	Loader string `json:"loader"`
	TreeSp int    `json:"treesp,omitempty"`
}

func genCaseTree(t *rapid.T, tree func(doc any) *Node, o genOpt) caseTree {
	c := caseTree{Msg: genMsg(t), Loader: styled(t, loaders...), TreeSp: between(t, 0, 2)}
	doc := genDoc(t, o)
	c.Msg = withDoc(t, c.Msg, doc)
	if chance(t, 3) {
		c.Msg.HasDoc, c.Msg.Doc = false, nil
	}
	c.Tree = tree(doc)
	return c
}

func loadTree(n *Node, sp int, loader string) (*me.Rule, error) {
	r := anyRule("block", n)
	r.TreeSp = sp
	rules, err := mustLoad([]RuleAST{r}, loader)
	if err != nil {
		return nil, err
	}
	return &rules.Rules[0], nil
}

// runTree gives the truth and the data of a tree, and checks that the ways of asking agree.
func runTree(n *Node, m *Msg, mode string, sp int, loader string) (bool, data, error) {
	r, err := loadTree(n, sp, loader)
	if err != nil {
		return false, nil, err
	}
	return runRule(r, m, mode, orderedData(n))
}

func runRule(r *me.Rule, m *Msg, mode string, ord bool) (bool, data, error) {
	ok, d, err := testConds(buildMsg(m, mode), r)
	if err != nil {
		return false, nil, err
	}
	code, d2, err := checkOne(buildMsg(m, mode), r)
	if err != nil {
		return false, nil, err
	}
	if ok != (code == me.BLOCK) {
		return false, nil, violated("%s: the conditions are %v but the rule gives %d", mode, ok, code)
	}
	if ok && !sameData(d, d2, ord) {
		return false, nil, violated("%s: the conditions return %s but the rule returns %s", mode, canon(d), canon(d2))
	}
	if !ok && len(d2) > 0 {
		return false, nil, violated("%s: the rule does not apply but returns %s", mode, canon(d2))
	}
	return ok, d, nil
}

// againstModel compares the engine with the reference model in every document mode.
func againstModel(c caseTree, x *ctx, withData bool) (bool, error) {
	m := &model{msg: &c.Msg}
	want, wantData := m.eval(c.Tree, nil)
	if m.inexact {
		x.class("left out: rounding")
		return want, nil
	}
	x.class("truth %v", want)
	r, err := loadTree(c.Tree, c.TreeSp, c.Loader)
	if err != nil {
		return want, err
	}
	ord := orderedData(c.Tree)
	for _, mode := range docModes(&c.Msg) {
		got, d, err := runRule(r, &c.Msg, mode, ord)
		if err != nil {
			return want, err
		}
		if got != want {
			return want, violated("%s: the conditions are %v, expected %v\n%s", mode, got, want, toYAML(c.Tree.generic()))
		}
		if withData && !sameData(d, wantData, ord) {
			return want, violated("%s: returned %s, expected %s\n%s", mode, canon(d), canon(wantData), toYAML(c.Tree.generic()))
		}
	}
	return want, nil
}

// ---------------------------------------------------------------- C04

type caseEquiv struct {
	caseTree
	Rewrites []rewrite `json:"rewrites"`
}

// rewrite: at the At-th node (pre-order, modulo) apply the rule named by Kind; Arg selects.
type rewrite struct {
	Kind string `json:"kind"`
	At   int    `json:"at"`
	Arg  int    `json:"arg"`
}

var boolRewrites = []string{"not-not", "demorgan", "swap", "rotate", "dup", "wrap-and", "wrap-or", "regroup", "distribute", "absorb", "true", "false"}

func applyRewrite(root *Node, rw rewrite) bool {
	var nodes []*Node
	root.walk(func(n *Node) { nodes = append(nodes, n) })
	n := nodes[rw.At%len(nodes)]
	clean := func() bool { // return values are not part of the boolean algebra
		ok := true
		n.walk(func(m *Node) {
			if len(m.Ret) > 0 || m.Cond != nil && len(m.Cond.Ret) > 0 {
				ok = false
			}
		})
		return ok
	}
	if !clean() {
		return false
	}
	not := func(k *Node) *Node { return &Node{Op: opNot, Kids: []*Node{k}, Sp: rw.Arg} }
	konst := func(v bool) *Node {
		return leaf(Cond{Attr: fmt.Sprint(v), Method: "EQ", Val: Val{Kind: "str", S: "x"}})
	}
	c := n.clone()
	switch rw.Kind {
	case "not-not":
		*n = *not(not(c))
	case "demorgan":
		if n.Op != opAnd && n.Op != opOr {
			return false
		}
		op := opOr
		if n.Op == opOr {
			op = opAnd
		}
		in := &Node{Op: op}
		for _, k := range c.Kids {
			in.Kids = append(in.Kids, not(k))
		}
		*n = *not(in)
	case "swap":
		if n.Op != opAnd && n.Op != opOr || len(n.Kids) < 2 {
			return false
		}
		i := rw.Arg % (len(n.Kids) - 1)
		n.Kids[i], n.Kids[i+1] = n.Kids[i+1], n.Kids[i]
	case "rotate":
		if n.Op != opAnd && n.Op != opOr || len(n.Kids) < 2 {
			return false
		}
		n.Kids = append(n.Kids[1:len(n.Kids):len(n.Kids)], n.Kids[0])
	case "dup":
		if n.Op != opAnd && n.Op != opOr {
			return false
		}
		n.Kids = append(n.Kids, c.Kids[rw.Arg%len(c.Kids)])
	case "wrap-and":
		*n = Node{Op: opAnd, Kids: []*Node{c}}
	case "wrap-or":
		*n = Node{Op: opOr, Kids: []*Node{c}}
	case "regroup":
		if n.Op != opAnd && n.Op != opOr || len(n.Kids) < 2 {
			return false
		}
		i := 1 + rw.Arg%(len(c.Kids)-1)
		n.Kids = []*Node{{Op: n.Op, Kids: c.Kids[:i:i]}, {Op: n.Op, Kids: c.Kids[i:]}}
	case "distribute": // a -> (a AND b) OR (a AND NOT b)
		b := konst(rw.Arg%2 == 0)
		*n = Node{Op: opOr, Kids: []*Node{{Op: opAnd, Kids: []*Node{c, b}}, {Op: opAnd, Kids: []*Node{c.clone(), not(b.clone())}}}}
	case "absorb": // a -> a OR (a AND b)
		*n = Node{Op: opOr, Kids: []*Node{c, {Op: opAnd, Kids: []*Node{c.clone(), konst(rw.Arg%2 == 0)}}}}
	case "true":
		*n = Node{Op: opAnd, Kids: []*Node{c, konst(true)}}
	case "false":
		*n = Node{Op: opOr, Kids: []*Node{konst(false), c}}
	default:
		panic(rw.Kind)
	}
	return true
}

// combine evaluates a boolean tree when the truth of its leaves is known.
func combine(n *Node, truth map[*Node]bool) bool {
	if v, ok := truth[n]; ok {
		return v
	}
	switch n.Op {
	case opNot:
		return !combine(n.Kids[0], truth)
	case opAnd:
		for _, k := range n.Kids {
			if !combine(k, truth) {
				return false
			}
		}
		return true
	case opOr:
		for _, k := range n.Kids {
			if combine(k, truth) {
				return true
			}
		}
		return false
	}
	panic("combine " + n.Op)
}

func boolLeaves(n *Node, out *[]*Node) {
	switch n.Op {
	case opAnd, opOr, opNot:
		for _, k := range n.Kids {
			boolLeaves(k, out)
		}
	default:
		*out = append(*out, n)
	}
}

func genBoolTree(t *rapid.T, depth, width int, leafGen func() *Node) *Node {
	op := opCond
	if depth > 0 {
		op = pick(t, opCond, opAnd, opOr, opNot, opAnd, opOr)
	}
	n := &Node{Op: op, Sp: between(t, 0, 7)}
	switch op {
	case opCond:
		return leafGen()
	case opNot:
		n.Kids = []*Node{genBoolTree(t, depth-1, width, leafGen)}
	default:
		for i, k := 0, between(t, 1, width); i < k; i++ {
			n.Kids = append(n.Kids, genBoolTree(t, depth-1, width, leafGen))
		}
	}
	return n
}

func init() {
	rules["C04"] = "non-trivial: the tree has a boolean node with at least two different leaves below, and for rewrites at least one was applied"
	addFacet("C04", "model", 7000, func(t *rapid.T) caseTree {
		o := genOpt{attrs: true, noRet: true}
		return genCaseTree(t, func(doc any) *Node { return genTree(t, scope{doc: doc}, between(t, 1, 4), o) }, o)
	}, func(c caseTree, x *ctx) error {
		n := 0
		c.Tree.walk(func(m *Node) {
			if m.Op == opCond {
				n++
			}
		})
		x.nt(n >= 2 && c.Tree.has(opAnd, opOr, opNot))
		x.class("depth %d", c.Tree.depth())
		_, err := againstModel(c, x, false)
		return err
	})
	addFacet("C04", "composition", 4000, func(t *rapid.T) caseTree {
		o := genOpt{attrs: true, noRet: true, odd: true}
		return genCaseTree(t, func(doc any) *Node {
			return genBoolTree(t, between(t, 1, 5), 4, func() *Node { return genTree(t, scope{doc: doc}, between(t, 0, 1), o) })
		}, o)
	}, func(c caseTree, x *ctx) error {
		var leaves []*Node
		boolLeaves(c.Tree, &leaves)
		x.nt(len(leaves) >= 2)
		x.class("leaves %d", min(len(leaves), 10))
		for _, mode := range docModes(&c.Msg) {
			truth := map[*Node]bool{}
			both := map[bool]bool{}
			for _, l := range leaves {
				v, _, err := runTree(l, &c.Msg, mode, 0, c.Loader)
				if err != nil {
					return err
				}
				truth[l] = v
				both[v] = true
			}
			x.class("mixed leaves %v", len(both) == 2)
			want := combine(c.Tree, truth)
			got, _, err := runTree(c.Tree, &c.Msg, mode, c.TreeSp, c.Loader)
			if err != nil {
				return err
			}
			if got != want {
				return violated("%s: the tree is %v, its leaves combine to %v\n%s", mode, got, want, toYAML(c.Tree.generic()))
			}
		}
		return nil
	})
	addFacet("C04", "rewrites", 4000, func(t *rapid.T) caseEquiv {
		o := genOpt{attrs: true, noRet: true, odd: true}
		c := caseEquiv{caseTree: genCaseTree(t, func(doc any) *Node { return genTree(t, scope{doc: doc}, between(t, 1, 3), o) }, o)}
		for i, n := 0, between(t, 1, 4); i < n; i++ {
			c.Rewrites = append(c.Rewrites, rewrite{pick(t, boolRewrites...), between(t, 0, 30), between(t, 0, 5)})
		}
		return c
	}, func(c caseEquiv, x *ctx) error {
		other := c.Tree.clone()
		for _, rw := range c.Rewrites {
			if applyRewrite(other, rw) {
				x.nt(true)
				x.class("%s", rw.Kind)
			}
		}
		for _, mode := range docModes(&c.Msg) {
			a, _, err := runTree(c.Tree, &c.Msg, mode, c.TreeSp, c.Loader)
			if err != nil {
				return err
			}
			b, _, err := runTree(other, &c.Msg, mode, c.TreeSp, c.Loader)
			if err != nil {
				return err
			}
			if a != b {
				return violated("%s: the tree is %v but the equivalent tree is %v\n%s\n%s", mode, a, b, toYAML(c.Tree.generic()), toYAML(other.generic()))
			}
		}
		return nil
	})
	addFacet("C04", "frame-and-tree", 3000, func(t *rapid.T) caseRules {
		c := genCaseRules(t, 0, genOpt{attrs: true}, 0)
		r := genFrame(t, 0, !chance(t, 40))
		if chance(t, 80) {
			r.Tree = genTree(t, scope{doc: c.Msg.Doc}, between(t, 0, 2), genOpt{attrs: true})
			r.TreeSp = between(t, 0, 2)
		}
		c.Rules = []RuleAST{r}
		return c
	}, func(c caseRules, x *ctx) error {
		r := c.Rules[0]
		m := &model{msg: &c.Msg}
		frame, tree := m.frameMatches(r), true
		if r.Tree != nil {
			tree, _ = m.eval(r.Tree, nil)
		}
		if m.inexact {
			x.class("left out: rounding")
			return nil
		}
		x.nt(r.Tree != nil)
		x.class("frame %v tree %v", frame, tree)
		loaded, err := mustLoad(c.Rules, c.Loader)
		if err != nil {
			return err
		}
		for _, mode := range docModes(&c.Msg) {
			code, _, err := checkOne(buildMsg(&c.Msg, mode), &loaded.Rules[0])
			if err != nil {
				return err
			}
			if (code != me.DEFAULT) != (frame && tree) {
				return violated("%s: rule gives %d; its fields match: %v, its conditions hold: %v", mode, code, frame, tree)
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- C05

func genQuant(t *rapid.T, doc any, depth int, o genOpt) *Node {
	for i := 0; i < 6; i++ {
		n := genTree(t, scope{doc: doc}, depth, o)
		if n.Op == opAny || n.Op == opAll {
			return n
		}
	}
	p, ek := genParent(t, rootAbs, doc, 'o', o)
	m := &model{msg: &Msg{HasDoc: true, Doc: doc}}
	in := scope{doc: doc, in: true, kind: ek}
	if el := m.elements(p, nil); len(el) > 0 {
		in.rel = el[between(t, 0, len(el)-1)]
	}
	return &Node{Op: pick(t, opAny, opAll), Parents: []Path{p}, Kids: []*Node{genTree(t, in, depth-1, o)}, Sp: between(t, 0, 7)}
}

type caseCount struct {
	N      int    `json:"n"`    // elements
	Sat    []int  `json:"sat"`  // satisfying elements
	Wrap   int    `json:"wrap"` // shape of the document around the array
	Parent int    `json:"parent"`
	Elem   int    `json:"elem"` // shape of the element and condition
	Op     string `json:"op"`
	Style  int    `json:"style"`
}

// build makes a document in which exactly the chosen elements satisfy the condition.
func (c caseCount) build() (doc any, tree *Node) {
	sat := map[int]bool{}
	for _, i := range c.Sat {
		sat[i] = true
	}
	var elems []any
	cond := Cond{Method: "EQ", Val: Val{Kind: "str", S: "yes"}}
	idx := func(i int) *int { return &i }
	for i := 0; i < max(c.N, 1); i++ {
		v := "no"
		if sat[i] {
			v = "yes"
		}
		switch c.Elem {
		case 0:
			elems = append(elems, map[string]any{"k": v, "i": float64(i)})
			cond.Path = &Path{Root: rootRel, Steps: []Step{{K: "k"}}}
		case 1:
			elems = append(elems, v)
			cond.Path = &Path{Root: rootRel}
		case 2:
			elems = append(elems, map[string]any{"a": map[string]any{"k": v}, "b": []any{"yes", "}],[{"}})
			cond.Path = &Path{Root: rootRel, Steps: []Step{{K: "a"}, {K: "k"}}}
		case 3:
			e := map[string]any{"i": float64(i)}
			if sat[i] {
				e["k"] = "1"
			}
			elems = append(elems, e)
			cond = Cond{Path: &Path{Root: rootRel, Steps: []Step{{K: "k"}}}, Method: "EX", Val: Val{Kind: "none"}}
		case 4:
			n := 1.0
			if sat[i] {
				n = 7
			}
			elems = append(elems, map[string]any{"w": []any{0.0, n}})
			cond = Cond{Path: &Path{Root: rootRel, Steps: []Step{{K: "w"}, {I: idx(1)}}}, Method: "GT", Val: Val{Kind: "num", S: "5"}}
		}
	}
	elems = append([]any{}, elems[:c.N]...)
	var p Path
	all := Step{All: true}
	switch c.Wrap {
	case 0:
		doc = map[string]any{"l": elems}
		p = Path{Root: rootAbs, Steps: []Step{{K: "l"}}}
	case 1:
		doc = map[string]any{"a": map[string]any{"l": elems, "m": []any{}}, "l": []any{"x"}}
		p = Path{Root: rootAbs, Steps: []Step{{K: "a"}, {K: "l"}}}
	case 2: // split over two outer elements
		h := len(elems) / 2
		doc = map[string]any{"o": []any{map[string]any{"l": elems[:h]}, map[string]any{"l": elems[h:]}, map[string]any{"z": 1.0}}}
		p = Path{Root: rootAbs, Steps: []Step{{K: "o"}, all, {K: "l"}}}
	case 3: // deep scan
		h := len(elems) / 2
		doc = map[string]any{"o": map[string]any{"l": elems[:h]}, "p": map[string]any{"q": map[string]any{"l": elems[h:]}}}
		p = Path{Root: rootAbs, Steps: []Step{{K: "l", Deep: true}}}
	case 4: // nested quantifiers below
		doc = map[string]any{"o": []any{map[string]any{"l": elems}}}
		p = Path{Root: rootAbs, Steps: []Step{{K: "o"}, {I: idx(0)}, {K: "l"}}}
	}
	if c.Parent%2 == 1 {
		p.Steps = append(p.Steps, Step{All: true, Q: c.Parent / 2 % 2})
	}
	return doc, &Node{Op: c.Op, Parents: []Path{p}, Kids: []*Node{leaf(cond)}}
}

func init() {
	rules["C05"] = "non-trivial: a quantifier ranges over at least one element of the document (for 'count': over at least two)"
	addFacet("C05", "model", 9000, func(t *rapid.T) caseTree {
		o := genOpt{noRet: true}
		return genCaseTree(t, func(doc any) *Node { return genQuant(t, doc, between(t, 1, 4), o) }, o)
	}, func(c caseTree, x *ctx) error {
		m := &model{msg: &c.Msg}
		n := 0
		if c.Msg.HasDoc && !c.Tree.Parents[0].relative() {
			for _, p := range c.Tree.Parents {
				n += len(m.elements(p, nil))
			}
		}
		x.nt(n > 0)
		x.class("elements %d", min(n, 6))
		q := 0
		c.Tree.walk(func(m *Node) {
			if m.Op == opAny || m.Op == opAll {
				q++
			}
		})
		x.class("quantifiers %d", min(q, 4))
		_, err := againstModel(c, x, false)
		return err
	})
	addFacet("C05", "nested", 9000, func(t *rapid.T) caseTree { return genNest(t, false) }, func(c caseTree, x *ctx) error {
		q := 0
		c.Tree.walk(func(m *Node) {
			if m.Op == opAny || m.Op == opAll {
				q++
			}
		})
		x.nt(q > 1)
		x.class("quantifiers %d", min(q, 5))
		_, err := againstModel(c, x, false)
		return err
	})
	addFacet("C05", "count", 4000, func(t *rapid.T) caseCount {
		c := caseCount{N: between(t, 0, 14), Wrap: between(t, 0, 4), Parent: between(t, 0, 3), Elem: between(t, 0, 4), Op: pick(t, opAny, opAll), Style: between(t, 0, 15)}
		switch between(t, 0, 3) {
		case 0: // one
			if c.N > 0 {
				c.Sat = []int{between(t, 0, c.N-1)}
			}
		case 1: // all but one
			if c.N > 0 {
				skip := between(t, 0, c.N-1)
				for i := 0; i < c.N; i++ {
					if i != skip {
						c.Sat = append(c.Sat, i)
					}
				}
			}
		case 2: // all
			c.Sat = seq(c.N)
		default:
			for i := 0; i < c.N; i++ {
				if chance(t, 50) {
					c.Sat = append(c.Sat, i)
				}
			}
		}
		return c
	}, func(c caseCount, x *ctx) error {
		doc, tree := c.build()
		want := len(c.Sat) > 0
		if c.Op == opAll {
			want = len(c.Sat) == c.N
		}
		x.nt(c.N >= 2)
		x.class("truth %v", want)
		x.class("wrap %d", c.Wrap)
		msg := Msg{HasDoc: true, Doc: doc, Style: c.Style}
		for _, mode := range docModes(&msg) {
			got, _, err := runTree(tree, &msg, mode, 0, "yaml")
			if err != nil {
				return err
			}
			if got != want {
				return violated("%s: %s is %v with %d of %d elements satisfying\n%s", mode, c.Op, got, len(c.Sat), c.N, toYAML(tree.generic()))
			}
		}
		return nil
	})
	addFacet("C05", "laws", 4000, func(t *rapid.T) caseEquiv {
		o := genOpt{noRet: true, odd: true}
		c := caseEquiv{caseTree: genCaseTree(t, func(doc any) *Node { return genQuant(t, doc, between(t, 1, 3), o) }, o)}
		for i, n := 0, between(t, 1, 3); i < n; i++ {
			c.Rewrites = append(c.Rewrites, rewrite{pick(t, "dual", "split-parents", "distribute-kids", "dup-parent"), between(t, 0, 10), between(t, 0, 5)})
		}
		return c
	}, func(c caseEquiv, x *ctx) error {
		if !c.Msg.HasDoc {
			x.class("no document")
			return nil // without a document quantifiers are false, dual or not
		}
		other := c.Tree.clone()
		for _, rw := range c.Rewrites {
			if applyQuantLaw(other, rw) {
				x.nt(true)
				x.class("%s", rw.Kind)
			}
		}
		for _, mode := range docModes(&c.Msg) {
			a, _, err := runTree(c.Tree, &c.Msg, mode, c.TreeSp, c.Loader)
			if err != nil {
				return err
			}
			b, _, err := runTree(other, &c.Msg, mode, c.TreeSp, c.Loader)
			if err != nil {
				return err
			}
			if a != b {
				return violated("%s: the tree is %v but the equivalent tree is %v\n%s\n%s", mode, a, b, toYAML(c.Tree.generic()), toYAML(other.generic()))
			}
		}
		return nil
	})
}

func applyQuantLaw(root *Node, rw rewrite) bool {
	var nodes []*Node
	root.walk(func(n *Node) {
		if n.Op == opAny || n.Op == opAll {
			nodes = append(nodes, n)
		}
	})
	if len(nodes) == 0 {
		return false
	}
	n := nodes[rw.At%len(nodes)]
	c := n.clone()
	outer, dual := opOr, opAll
	if n.Op == opAll {
		outer, dual = opAnd, opAny
	}
	not := func(k *Node) *Node { return &Node{Op: opNot, Kids: []*Node{k}, Sp: rw.Arg} }
	switch rw.Kind {
	case "dual":
		*n = *not(&Node{Op: dual, Parents: c.Parents, Kids: []*Node{not(c.Kids[0])}, Sp: rw.Arg})
	case "split-parents":
		if len(c.Parents) < 2 {
			return false
		}
		out := &Node{Op: outer}
		for _, p := range c.Parents {
			out.Kids = append(out.Kids, &Node{Op: c.Op, Parents: []Path{p}, Kids: []*Node{c.Kids[0].clone()}})
		}
		*n = *out
	case "distribute-kids":
		if c.Kids[0].Op != outer {
			return false
		}
		out := &Node{Op: outer}
		for _, k := range c.Kids[0].Kids {
			out.Kids = append(out.Kids, &Node{Op: c.Op, Parents: c.Parents, Kids: []*Node{k}})
		}
		*n = *out
	case "dup-parent":
		if c.Parents[0].Root == rootStar {
			return false
		}
		n.Parents = append(n.Parents, c.Parents[0])
	}
	return true
}

// ---------------------------------------------------------------- C06

// caseCmp: one value at $.a.v compared by one condition.
type caseCmp struct {
	V      any    `json:"v"`
	Cond   Cond   `json:"cond"`
	Style  int    `json:"style"`
	Loader string `json:"loader"`
}

// neighbour is another number that is close to f.
func neighbour(t *rapid.T, f float64) float64 {
	d := pick(t, 1e-4, 1e-6, 1e-7, 1e-9, 1e-10, 1e-12, 0)
	if d == 0 && f != 0 {
		return math.Nextafter(f, math.Inf(between(t, 0, 1)*2-1))
	}
	if chance(t, 50) {
		d = -d
	}
	return f + d
}

func genNumText(t *rapid.T) string {
	switch between(t, 0, 5) {
	case 5: // many digits
		return pick(t, "16777216", "4294967296", "9007199254740992", "123456789012", "0.123456789012", "1700000000", "99999999.5", "3.1415926535")
	case 0:
		return pick(t, numberTexts...)
	case 1:
		return fmt.Sprint(between(t, -20, 20))
	case 2:
		return fmt.Sprintf("%d.%d", between(t, 0, 12), between(t, 0, 99))
	case 3:
		return fmt.Sprint(between(t, 0, 3000000))
	}
	return fmt.Sprintf("%de%d", between(t, 1, 20), between(t, -3, 6))
}

func checkCmp(c caseCmp, x *ctx) error {
	c.Cond.Path = &Path{Root: rootAbs, Steps: []Step{{K: "a"}, {K: "v"}}}
	m := Msg{HasDoc: true, Doc: map[string]any{"a": map[string]any{"v": c.V, "w": "other"}}, Style: c.Style}
	_, err := againstModel(caseTree{Tree: leaf(c.Cond), Msg: m, Loader: c.Loader}, x, false)
	if err != nil {
		return err
	}
	// the same comparison relative to an element
	rel := c.Cond
	rel.Path = &Path{Root: rootRel, Steps: []Step{{K: "v"}}}
	q := &Node{Op: opAny, Parents: []Path{{Root: rootAbs, Steps: []Step{{K: "l"}}}}, Kids: []*Node{leaf(rel)}}
	m.Doc = map[string]any{"l": []any{map[string]any{"v": c.V}}}
	if _, err = againstModel(caseTree{Tree: q, Msg: m, Loader: c.Loader}, x, false); err != nil {
		return err
	}
	// the method in the other letter case
	other := c.Cond
	other.Method = strings.ToLower(c.Cond.Method)
	if other.Method == c.Cond.Method {
		other.Method = strings.ToUpper(c.Cond.Method)
	}
	if strings.ToUpper(other.Method) == "IS" {
		return nil
	}
	m.Doc = map[string]any{"a": map[string]any{"v": c.V}}
	_, err = againstModel(caseTree{Tree: leaf(other), Msg: m, Loader: c.Loader}, x, false)
	return err
}

func init() {
	rules["C06"] = "non-trivial: the path leads to a value in the document (conditions), or both sides are numbers (numbers), or the value is a string (strings)"
	addFacet("C06", "conditions", 12000, func(t *rapid.T) caseTree {
		o := genOpt{noRet: true, odd: chance(t, 50)}
		return genCaseTree(t, func(doc any) *Node {
			return &Node{Op: opCond, Cond: ptr(genPathCond(t, scope{doc: doc}, o)), Sp: between(t, 0, 2)}
		}, o)
	}, func(c caseTree, x *ctx) error {
		found := 0
		if c.Msg.HasDoc {
			res, _ := follow(c.Msg.Doc, c.Tree.Cond.Path.Steps)
			found = len(res)
		}
		x.nt(found > 0)
		x.class("method %s", strings.ToUpper(c.Tree.Cond.Method))
		_, err := againstModel(c, x, false)
		return err
	})
	addFacet("C06", "numbers", 9000, func(t *rapid.T) caseCmp {
		c := caseCmp{Style: between(t, 0, 15), Loader: styled(t, loaders...)}
		c.Cond.Method = lowerSome(t, pick(t, "EQ", "NEQ", "NE", "GT", "GE", "LT", "LE"))
		txt := genNumText(t)
		unit := ""
		if chance(t, 45) {
			unit = pick(t, unitNames...)
		}
		c.Cond.Val = Val{Kind: "num", S: txt, Unit: unit}
		vt := genNumText(t)
		vu := ""
		if chance(t, 45) {
			vu = pick(t, unitNames...)
		}
		if chance(t, 40) { // near the condition's value
			vt, vu = txt, unit
			switch between(t, 0, 5) {
			case 0:
				if f, ok := parseNumber(txt); ok {
					r := f.exact
					vt = r.FloatString(between(t, 0, 4))
				}
			case 4, 5: // a little more or less
				if f, ok := parseNumber(txt); ok {
					d := new(big.Rat).Mul(big.NewRat(int64(pick(t, -1, 1)), 1), pick(t, big.NewRat(1, 1), big.NewRat(1, 1000), big.NewRat(1, 1000000), big.NewRat(1, 1000000000)))
					vt = new(big.Rat).Add(f.exact, d).FloatString(12)
					vt = strings.TrimSuffix(strings.TrimRight(vt, "0"), ".")
				}
			case 1:
				vu = pick(t, unitNames...)
			case 2:
				// the same quantity in another unit
				if n, ok := parseNumber(txt + unit); ok {
					vt, vu = n.exact.FloatString(6), ""
				}
			}
		}
		if n, ok := parseNumber(vt); ok && vu == "" && chance(t, 60) && n.f < 1e21 { // beyond that JSON text has an exponent with '+', see C08
			c.V = n.f
		} else {
			c.V = vt + vu
		}
		if chance(t, 6) { // one side is not a number
			if chance(t, 50) {
				c.V = pick(t, any("abc"), any("NaN"), any("Inf"), any("1x"), any("Ki"), any("1e"), any("0x10"), any("--1"), any(true), any("1 Ki"), any("infinity"))
			} else if m := strings.ToUpper(c.Cond.Method); m == "EQ" || m == "NEQ" || m == "NE" {
				c.Cond.Val = Val{Kind: "str", S: pick(t, "abc", "NaN", "Inf", "1x", "inf", "true", "nan")}
			}
		}
		return c
	}, func(c caseCmp, x *ctx) error {
		_, isNum := c.V.(float64)
		s, _ := c.V.(string)
		_, ok := parseNumber(s)
		x.nt(isNum || ok)
		x.class("units %v", c.Cond.Val.Unit != "")
		return checkCmp(c, x)
	})
	addFacet("C06", "strings", 9000, func(t *rapid.T) caseCmp {
		c := caseCmp{Style: between(t, 0, 15), Loader: styled(t, loaders...)}
		s := genString(t, genOpt{odd: true})
		if chance(t, 25) {
			s = rapid.StringOf(rapid.RuneFrom([]rune(`ab01 .,[]{}"'\/:$*?^|()é日`+"\t\n"))).Draw(t, "s")
		}
		keyword := chance(t, 8)
		if keyword {
			s = pick(t, keywordStrings...)
		}
		c.V = s
		switch between(t, 0, 6) {
		case 0, 1, 2:
			v := s
			if keyword && chance(t, 50) {
				v = pick(t, keywordStrings...)
			} else if chance(t, 40) {
				v = instance(t, s)
			}
			if strings.HasPrefix(v, "#") {
				v = "a"
			}
			c.Cond.Method, c.Cond.Val = lowerSome(t, pick(t, "EQ", "NEQ", "NE")), Val{Kind: "str", S: v}
		case 3, 4:
			c.Cond.Method, c.Cond.Val = genCompareKind(t, s, "re")
		case 5:
			c.Cond.Method, c.Cond.Val = genCompareKind(t, s, "list")
		case 6:
			c.Cond.Method, c.Cond.Val = lowerSome(t, pick(t, "EX", "NEX", "GT", "LE")), Val{Kind: "num", S: "5"}
			if m := strings.ToUpper(c.Cond.Method); m == "EX" || m == "NEX" {
				c.Cond.Val = Val{Kind: "none"}
			}
		}
		return c
	}, func(c caseCmp, x *ctx) error {
		x.nt(c.V != "")
		x.class("method %s", strings.ToUpper(c.Cond.Method))
		return checkCmp(c, x)
	})
	addFacet("C06", "empty", 1500, func(t *rapid.T) caseCmp {
		c := caseCmp{Style: between(t, 0, 15), Loader: styled(t, loaders...)}
		c.V = pick(t, any(""), any([]any{}), any(map[string]any{}), any(nil), any(false), any(0.0), any([]any{map[string]any{}}), any([]any{0.0, "x"}), any("null"))
		switch c.V.(type) {
		case []any, map[string]any:
			c.Cond.Method, c.Cond.Val = lowerSome(t, pick(t, "EX", "NEX")), Val{Kind: "none"}
		default:
			s, _ := scalarText(c.V)
			c.Cond.Method, c.Cond.Val = genCompare(t, s, false, genOpt{})
		}
		return c
	}, func(c caseCmp, x *ctx) error {
		x.nt(true)
		return checkCmp(c, x)
	})
}

func genCompareKind(t *rapid.T, actual, kind string) (string, Val) {
	for {
		m, v := genCompare(t, actual, false, genOpt{})
		if v.Kind == kind {
			return m, v
		}
	}
}

func ptr[T any](v T) *T { return &v }

// ---------------------------------------------------------------- C07

func init() {
	rules["C07"] = "non-trivial: the condition reads an attribute that the message has"
	addFacet("C07", "attributes", 14000, func(t *rapid.T) caseTree {
		c := caseTree{Msg: genMsg(t), Loader: styled(t, loaders...)}
		cond := genAttrCond(t, nil)
		odd := []string{"a+b", "(a)", "a.b", "axb", "a|b", "$x", "a{2}", "a\\b", "^a", "é", "a b", ""}
		vary := func(s *string) {
			if chance(t, 25) {
				*s = pick(t, odd...)
			} else if cond.Val.Kind == "str" && chance(t, 50) {
				*s = instance(t, cond.Val.S)
			}
		}
		if cond.Val.Kind == "str" && strings.ToLower(cond.Attr) != "true" && strings.ToLower(cond.Attr) != "false" && chance(t, 20) {
			cond.Val.S = genGlob(t, odd[:11])
		}
		if strings.Contains(cond.Attr, "Label[") {
			k := strings.TrimSuffix(cond.Attr[strings.Index(cond.Attr, "[")+1:], "]")
			for _, l := range []map[string]string{c.Msg.SrcLabels, c.Msg.DstLabels} {
				if _, has := l[k]; has || chance(t, 60) {
					v := l[k]
					if v == "" && chance(t, 80) {
						v = pick(t, labelValues...)
					}
					vary(&v)
					if v == "" && cond.Val.Kind == "rlabel" {
						v = "a"
					}
					l[k] = v
				}
			}
			if cond.Val.Kind == "rlabel" {
				if v, ok := c.Msg.SrcLabels[k]; ok && chance(t, 50) {
					c.Msg.DstLabels[cond.Val.S] = v
				}
			}
		}
		vary(&c.Msg.Domain)
		vary(&c.Msg.UA)
		vary(&c.Msg.EncType)
		vary(&c.Msg.SrcNS)
		vary(&c.Msg.DstNS)
		if chance(t, 30) {
			c.Msg.Size = int64(between(t, 0, 3000))
		}
		if chance(t, 40) {
			c.Msg.Sec = between(t, 0, 86399)
		}
		if cond.Attr == "utcHoursFromMidnight" && chance(t, 40) {
			h := float64(c.Msg.Sec/900) / 4
			cond.Val.S = fmt.Sprint(h)
			if chance(t, 50) {
				c.Msg.Sec = c.Msg.Sec / 900 * 900
			}
		}
		if cond.Attr == "payloadSize" && cond.Val.Unit == "" && chance(t, 40) {
			cond.Val.S = fmt.Sprint(c.Msg.Size + int64(between(t, -1, 1)))
		}
		c.Tree = &Node{Op: opCond, Cond: &cond, Sp: between(t, 0, 2)}
		return c
	}, func(c caseTree, x *ctx) error {
		a := c.Tree.Cond.Attr
		has := true
		switch {
		case strings.HasPrefix(a, "senderLabel["):
			_, has = c.Msg.SrcLabels[a[len("senderLabel["):len(a)-1]]
		case strings.HasPrefix(a, "receiverLabel["):
			_, has = c.Msg.DstLabels[a[len("receiverLabel["):len(a)-1]]
		case a == "encryptionVersion":
			has = c.Msg.EncVer != nil
		}
		x.nt(has)
		x.class("attribute %s", regexp.MustCompile(`\[.*`).ReplaceAllString(a, ""))
		x.class("method %s", strings.ToUpper(c.Tree.Cond.Method))
		_, err := againstModel(c, x, false)
		return err
	})
	addFacet("C07", "in-trees", 3000, func(t *rapid.T) caseTree {
		c := caseTree{Msg: genMsg(t), Loader: styled(t, loaders...)}
		c.Tree = genBoolTree(t, between(t, 1, 3), 3, func() *Node { return leaf(genAttrCond(t, nil)) })
		return c
	}, func(c caseTree, x *ctx) error {
		x.nt(c.Tree.Op != opCond)
		_, err := againstModel(c, x, false)
		return err
	})
}

// ---------------------------------------------------------------- C09

func dropRets(n *Node) *Node {
	c := n.clone()
	c.walk(func(m *Node) {
		m.Ret = nil
		if m.Cond != nil {
			m.Cond.Ret = nil
		}
	})
	return c
}

func hasRet(n *Node) bool {
	found := false
	n.walk(func(m *Node) {
		if len(m.Ret) > 0 || m.Cond != nil && len(m.Cond.Ret) > 0 {
			found = true
		}
	})
	return found
}

func init() {
	rules["C09"] = "non-trivial: the tree asks for return values and the expected data is not empty, or values are asked for below a node that yields nothing"
	check := func(c caseTree, x *ctx) error {
		m := &model{msg: &c.Msg}
		want, wd := m.eval(c.Tree, nil)
		x.nt(hasRet(c.Tree) && (len(wd) > 0 || c.Tree.has(opNot, opAll) || !want))
		x.class("entries %d", min(len(wd), 5))
		x.class("ordered %v", orderedData(c.Tree))
		if _, err := againstModel(c, x, true); err != nil {
			return err
		}
		bare := dropRets(c.Tree)
		for _, mode := range docModes(&c.Msg) {
			a, _, err := runTree(c.Tree, &c.Msg, mode, c.TreeSp, c.Loader)
			if err != nil {
				return err
			}
			b, d, err := runTree(bare, &c.Msg, mode, c.TreeSp, c.Loader)
			if err != nil {
				return err
			}
			if a != b {
				return violated("%s: asking for return values changes the outcome from %v to %v", mode, b, a)
			}
			if len(d) > 0 {
				return violated("%s: nothing was asked for but %s is returned", mode, canon(d))
			}
		}
		return nil
	}
	addFacet("C09", "trees", 8000, func(t *rapid.T) caseTree {
		o := genOpt{ret: true, odd: chance(t, 30), attrs: chance(t, 20)}
		return genCaseTree(t, func(doc any) *Node { return genTree(t, scope{doc: doc}, between(t, 0, 3), o) }, o)
	}, check)
	addFacet("C09", "nested", 5000, func(t *rapid.T) caseTree { return genNest(t, true) }, check)
	addFacet("C09", "any", 6000, func(t *rapid.T) caseTree {
		o := genOpt{ret: true, odd: chance(t, 30), noDeep: chance(t, 50), noKV: chance(t, 50)}
		return genCaseTree(t, func(doc any) *Node {
			n := genQuant(t, doc, between(t, 1, 2), o)
			if n.Op == opAll && chance(t, 80) {
				n.Op = opAny
			}
			if len(n.Ret) == 0 {
				m := &model{msg: &Msg{HasDoc: true, Doc: doc}}
				var el []any
				for _, p := range n.Parents {
					el = append(el, m.elements(p, nil)...)
				}
				var ex any
				if len(el) > 0 {
					ex = el[between(t, 0, len(el)-1)]
				}
				n.Ret = genRet(t, rootRel, ex, o)
			}
			return n
		}, o)
	}, check)
}
