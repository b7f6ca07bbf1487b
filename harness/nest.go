package main

import "pgregory.net/rapid"

// Quantifiers in quantifiers with other conditions next to them, over documents in
// which every level is populated and few values occur, so that each part decides.

func nestElem(t *rapid.T, depth int) map[string]any {
	m := map[string]any{}
	if chance(t, 85) {
		m["s0"] = pick(t, "a", "b")
	}
	if chance(t, 70) {
		m["n0"] = pick(t, 1.0, 2, 3)
	}
	if chance(t, 30) {
		l := []any{}
		for i, n := 0, between(t, 0, 3); i < n; i++ {
			l = append(l, pick(t, "a", "b", "c"))
		}
		m["t0"] = l
	}
	if chance(t, 30) {
		mm := map[string]any{}
		for i, n := 0, between(t, 0, 2); i < n; i++ {
			mm[pick(t, "app", "tier", "x-y")] = pick(t, "a", "b")
		}
		m["m0"] = mm
	}
	if depth > 0 {
		for _, k := range []string{"l0", "l1"} {
			if chance(t, 80) {
				l := []any{}
				for i, n := 0, between(t, 0, 3); i < n; i++ {
					l = append(l, nestElem(t, depth-1))
				}
				m[k] = l
			}
		}
		if chance(t, 20) {
			m["o0"] = nestElem(t, depth-1)
		}
		if chance(t, 20) {
			l := []any{}
			for i, n := 0, between(t, 1, 4); i < n; i++ {
				switch between(t, 0, 2) {
				case 0:
					l = append(l, nestElem(t, 0))
				case 1:
					l = append(l, []any{nestElem(t, 0), nestElem(t, 0)}[:between(t, 1, 2)])
				default:
					l = append(l, pick(t, "a", "b"))
				}
			}
			m["y0"] = l
		}
	}
	return m
}

func nestLeaf(t *rapid.T, root string, kind byte) *Node {
	p := Path{Root: root}
	num := false
	switch {
	case root == rootRel && kind == 's':
	case root == rootKey || root == rootValue:
	case chance(t, 30):
		p.Steps, num = []Step{{K: "n0"}}, true
	default:
		p.Steps = []Step{{K: "s0", Q: pick(t, 0, 0, 0, 4)}}
	}
	c := Cond{Path: &p}
	switch {
	case num:
		c.Method, c.Val = pick(t, "EQ", "NEQ", "GT", "LE"), Val{Kind: "num", S: pick(t, "1", "2", "3")}
	case root == rootKey:
		c.Method, c.Val = pick(t, "EQ", "NEQ"), Val{Kind: "str", S: pick(t, "app", "tier")}
	case chance(t, 15) && kind != 's':
		c.Method, c.Val = pick(t, "EX", "NEX"), Val{Kind: "none"}
	case chance(t, 20):
		c.Method, c.Val = pick(t, "IN", "NIN"), Val{Kind: "list", List: []string{pick(t, "a", "b"), "c"}}
	default:
		c.Method, c.Val = pick(t, "EQ", "NEQ"), Val{Kind: "str", S: pick(t, "a", "b")}
	}
	return leaf(c)
}

// nestNode draws a condition inside the current element.
func nestNode(t *rapid.T, depth int, in bool, kind byte, ret bool) *Node {
	root := rootAbs
	if in {
		root = rootRel
	}
	if kind == 'M' {
		n := nestLeaf(t, pick(t, rootKey, rootValue), kind)
		if chance(t, 40) {
			n = &Node{Op: pick(t, opAnd, opOr), Kids: []*Node{n, nestLeaf(t, pick(t, rootKey, rootValue), kind)}}
		}
		return n
	}
	if kind == 's' || kind == 'y' || depth == 0 {
		r := root
		if in && chance(t, 10) {
			r = rootAbs
			kind = 'o'
		}
		if kind == 'y' {
			kind = 'o'
		}
		n := nestLeaf(t, r, kind)
		if !in && ret && chance(t, 40) {
			n.Cond.Ret = map[string]Path{"v": {Root: rootAbs, Steps: []Step{{K: pick(t, "s0", "n0", "l0")}}}}
		}
		return n
	}
	switch between(t, 0, 4) {
	case 0:
		return nestQuant(t, depth, root, ret && !in)
	case 1:
		return &Node{Op: opNot, Kids: []*Node{nestNode(t, depth-1, in, kind, ret)}}
	}
	n := &Node{Op: pick(t, opAnd, opOr)}
	for i, k := 0, between(t, 2, 3); i < k; i++ {
		if chance(t, 55) {
			n.Kids = append(n.Kids, nestQuant(t, depth, root, ret && !in))
		} else {
			n.Kids = append(n.Kids, nestNode(t, 0, in, kind, ret))
		}
	}
	return n
}

func nestQuant(t *rapid.T, depth int, root string, ret bool) *Node {
	p := Path{Root: root}
	kind := byte('o')
	all := func() {
		if chance(t, 60) {
			p.Steps = append(p.Steps, Step{All: true, Q: pick(t, 0, 1)})
		}
	}
	if root == rootRel && chance(t, 8) {
		p.Root = rootAbs
	}
	switch between(t, 0, 9) {
	case 0:
		p.Steps, kind = []Step{{K: "t0"}}, 's'
		all()
	case 1:
		p.Steps, kind = []Step{{K: "m0"}}, 'M'
	case 2:
		p.Steps = []Step{{K: "l0"}, {All: true, Q: pick(t, 0, 1)}, {K: pick(t, "l0", "l1")}}
		all()
	case 3:
		p.Steps = []Step{{K: "o0"}, {K: "l0"}}
		all()
	case 4:
		p.Steps, kind = []Step{{K: "y0"}}, 'y'
		all()
	default:
		p.Steps = []Step{{K: pick(t, "l0", "l0", "l1")}}
		all()
	}
	n := &Node{Op: pick(t, opAny, opAny, opAll), Parents: []Path{p}, Sp: between(t, 0, 7)}
	if kind == 'o' && chance(t, 10) {
		n.Parents = append(n.Parents, Path{Root: p.Root, Steps: []Step{{K: "l1"}}})
	}
	n.Kids = []*Node{nestNode(t, depth-1, true, kind, false)}
	if ret && n.Op == opAny && kind == 'o' && chance(t, 70) {
		n.Ret = map[string]Path{"v": {Root: rootRel, Steps: []Step{{K: pick(t, "s0", "n0", "t0", "l0")}}}}
	}
	return n
}

func genNest(t *rapid.T, ret bool) caseTree {
	c := caseTree{Msg: genMsg(t), Loader: styled(t, loaders...), TreeSp: between(t, 0, 2)}
	c.Msg = withDoc(t, c.Msg, nestElem(t, between(t, 1, 3)))
	if chance(t, 60) {
		c.Tree = nestQuant(t, between(t, 2, 4), rootAbs, ret)
	} else {
		c.Tree = nestNode(t, between(t, 1, 4), false, 'o', ret)
	}
	return c
}
