package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Large cases: long lists, long texts, many rules and messages, deep and wide trees.
// They are grown from a few draws so that they shrink by their sizes.

// size is mostly moderate, at times just beyond a power of two or ten.
func size(t *rapid.T, max int) int {
	if chance(t, 60) {
		var l []int
		for _, n := range []int{8, 10, 16, 32, 50, 64, 100, 128, 200, 255, 256, 500, 512, 1000, 1024, 2048, 4096} {
			if n < max {
				l = append(l, n)
			}
		}
		return min(max, pick(t, l...)+between(t, 0, 2))
	}
	return between(t, 5, max)
}

func longText(t *rapid.T, max int) string {
	unit := pick(t, "a", "ab", "x1-", "é", "a b", "a/", "日")
	n := size(t, max)
	s := strings.Repeat(unit, n/len(unit)+1)
	return s + pick(t, "", "z", "Q", "-end", ".", "é")
}

// bigLeaf is true or false on the documents of bigDoc; k makes it distinct.
func bigLeaf(truth bool, k, form int) *Node {
	abs := func(s ...Step) *Path { return &Path{Root: rootAbs, Steps: s} }
	yes, no := "EQ", "NEQ"
	if !truth {
		yes, no = no, yes
	}
	switch form % 4 {
	case 0:
		return leaf(Cond{Path: abs(Step{K: "s0"}), Method: no, Val: Val{Kind: "str", S: fmt.Sprintf("z%d", k)}})
	case 1:
		return leaf(Cond{Path: abs(Step{K: "o0"}, Step{K: fmt.Sprintf("k%d", k%20)}), Method: yes, Val: Val{Kind: "str", S: fmt.Sprintf("v%d", k%20)}})
	case 2:
		m := "GT"
		if !truth {
			m = "LE"
		}
		return leaf(Cond{Path: abs(Step{K: "n0"}), Method: m, Val: Val{Kind: "num", S: fmt.Sprint(-1 - k)}})
	}
	return &Node{Op: opAny, Parents: []Path{*abs(Step{K: "t0"}, Step{All: true})}, Kids: []*Node{leaf(Cond{Path: &Path{Root: rootRel}, Method: "EQ", Val: Val{Kind: "str", S: map[bool]string{true: "yes", false: fmt.Sprintf("no%d", k)}[truth]}})}}
}

func bigDoc() map[string]any {
	o := map[string]any{}
	for i := 0; i < 20; i++ {
		o[fmt.Sprintf("k%d", i)] = fmt.Sprintf("v%d", i)
	}
	return map[string]any{"s0": "a", "n0": 7.0, "o0": o, "t0": []any{"a", "yes", "b"}}
}

// bigTree is a deep chain or a wide node (or both) whose truth hangs on one of its leaves.
func bigTree(t *rapid.T, maxDepth, maxWidth int) *Node {
	form := between(t, 0, 7)
	truth := chance(t, 50)
	n := bigLeaf(truth, 0, form)
	depth, width := 0, 0
	switch between(t, 0, 2) {
	case 0:
		depth = between(t, 3, maxDepth)
	case 1:
		width = size(t, maxWidth)
	default:
		depth, width = between(t, 2, max(3, maxDepth/2)), size(t, max(10, maxWidth/3))
	}
	k := 1
	wrap := func(n *Node, op string, width, at int) *Node {
		if op == opNot {
			return &Node{Op: opNot, Kids: []*Node{n}, Sp: form}
		}
		w := &Node{Op: op, Sp: form}
		for i := 0; i < width; i++ {
			if i == at {
				w.Kids = append(w.Kids, n)
				continue
			}
			w.Kids = append(w.Kids, bigLeaf(op == opAnd, k, form+k))
			k++
		}
		return w
	}
	if width > 0 {
		n = wrap(n, pick(t, opAnd, opOr), width, between(t, 0, width-1))
	}
	for i := 0; i < depth; i++ {
		w := between(t, 1, 3)
		n = wrap(n, pick(t, opAnd, opOr, opNot), w, between(t, 0, w-1))
	}
	return n
}

func bigRule(t *rapid.T, maxDepth, maxWidth int) RuleAST {
	r := anyRule(pick(t, "block", "alert", "allow"), bigTree(t, maxDepth, maxWidth))
	r.TreeSp = between(t, 0, 2)
	return r
}

func bigMsg(t *rapid.T) Msg { return withDoc(t, genMsg(t), bigDoc()) }

func init() {
	sizes := func(c *Node, x *ctx) {
		w := 0
		c.walk(func(n *Node) { w = max(w, len(n.Kids)) })
		x.nt(c.depth() > 6 || w > 15)
		x.class("depth %d0-", c.depth()/10)
		x.class("width %d", map[bool]int{true: 100, false: 0}[w >= 100]+map[bool]int{true: 10, false: 0}[w >= 10])
	}

	addFacet("C01", "long-list", 25, func(t *rapid.T) caseRules {
		c := caseRules{Msg: bigMsg(t), Loader: styled(t, loaders...)}
		light := chance(t, 30)
		n := size(t, 130)
		if light {
			n = size(t, 1100)
		}
		at, dec := between(t, 0, n-1), pick(t, "allow", "alert", "block")
		base := pick(t, "", "allow", "alert")
		for i := 0; i < n; i++ {
			d, truth := base, true
			if base == "" {
				d, truth = pickAt(i, "allow", "alert", "block"), false
			}
			if i == at || i == at+9 {
				d, truth = dec, true
			}
			r := anyRule(d, bigLeaf(truth, i, i))
			if light {
				r.Tree = nil
				if !truth {
					r.Ops = []string{"NONE"}
				}
			}
			r.ID = fmt.Sprint(i)
			r.Meta = map[string]string{"description": fmt.Sprintf("rule %d", i)}
			c.Rules = append(c.Rules, r)
		}
		return c
	}, func(c caseRules, x *ctx) error {
		c.Perm = make([]int, len(c.Rules))
		for i := range c.Perm {
			c.Perm[i] = len(c.Perm) - 1 - i
		}
		return checkPrecedence(c, x)
	})

	addFacet("C02", "long", 1500, func(t *rapid.T) caseRule {
		c := caseRule{Msg: genMsg(t), Rule: anyRule("allow", nil), Loader: styled(t, loaders...)}
		mk := func() (Party, string) {
			p := Party{Type: "workload", Sep: pick(t, seps...)}
			name := longText(t, 700)
			name = strings.ReplaceAll(name, " ", "_")
			pat := name
			switch between(t, 0, 4) {
			case 0:
				pat = name[:1] + "*" + name[len(name)-1:]
				if name[0] >= 0x80 || name[len(name)-1] >= 0x80 {
					pat = "*"
				}
			case 1:
				pat = name + "*"
			case 2:
				pat = "*" + name
			case 3:
				pat = name + "?"
				name += "q"
			}
			n := 1
			if chance(t, 50) {
				n = size(t, 260)
			}
			at := between(t, 0, n-1)
			for i := 0; i < n; i++ {
				p.Names = append(p.Names, fmt.Sprintf("zz%d", i))
			}
			p.Names[at] = pat
			if chance(t, 40) {
				name = instance(t, name)
			}
			return p, name
		}
		if chance(t, 50) {
			c.Rule.Sender, c.Msg.Src = mk()
		} else {
			c.Rule.Receiver, c.Msg.Dst = mk()
		}
		return c
	}, func(c caseRule, x *ctx) error {
		x.nt(true)
		return checkFrame(c, x)
	})

	addFacet("C03", "long", 1200, func(t *rapid.T) caseRule {
		c := caseRule{Msg: genMsg(t), Rule: anyRule("allow", nil), Loader: styled(t, loaders...)}
		n := size(t, 260)
		at := between(t, 0, n-1)
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("/p%d", i))
		}
		name := strings.ReplaceAll("/"+longText(t, 500), " ", "_")
		names[at] = pick(t, name, name+"*", name+"?")
		if chance(t, 30) {
			name = instance(t, names[at])
		} else if strings.HasSuffix(names[at], "?") {
			name += "/"
		}
		if chance(t, 60) {
			c.Rule.Proto, c.Msg.Proto, c.Rule.ResType = "http", "HTTP", "*"
			c.Rule.ResNames, c.Msg.Path = names, name
			c.Rule.ResSep = pick(t, seps...)
		} else {
			c.Rule.Ops, c.Msg.Method = names, name
		}
		return c
	}, func(c caseRule, x *ctx) error {
		x.nt(true)
		return checkFrame(c, x)
	})

	genTreeCase := func(d, w int) func(t *rapid.T) caseTree {
		return func(t *rapid.T) caseTree {
			return caseTree{Tree: bigTree(t, d, w), Msg: bigMsg(t), Loader: styled(t, loaders...), TreeSp: between(t, 0, 2)}
		}
	}
	addFacet("C04", "deep-and-wide", 900, genTreeCase(22, 260), func(c caseTree, x *ctx) error {
		sizes(c.Tree, x)
		_, err := againstModel(c, x, false)
		return err
	})

	addFacet("C06", "long", 1500, func(t *rapid.T) caseCmp {
		c := caseCmp{Style: between(t, 0, 15), Loader: styled(t, loaders...)}
		s := longText(t, 5000)
		c.V = s
		other := s
		if chance(t, 50) {
			other = instance(t, s)
		}
		switch between(t, 0, 3) {
		case 0:
			c.Cond.Method, c.Cond.Val = lowerSome(t, pick(t, "EQ", "NEQ", "NE")), Val{Kind: "str", S: other}
		case 1:
			c.Cond.Method, c.Cond.Val = lowerSome(t, pick(t, "RE", "NRE")), Val{Kind: "re", S: pick(t, "z$", "^a", "end", "Q$", "^a+z?$", "^.{100,}$", "b x", "é$")}
		case 2:
			if len(other) > 900 {
				other = other[len(other)-6:]
				if other[0] >= 0x80 {
					other = "end"
				}
			}
			c.V = other
			n := size(t, 300)
			at := between(t, 0, n)
			l := Val{Kind: "list"}
			for i := 0; i < n; i++ {
				if i == at {
					l.List = append(l.List, strings.TrimSpace(other))
				} else {
					l.List = append(l.List, fmt.Sprintf("f%d", i))
				}
			}
			c.V = strings.TrimSpace(other)
			c.Cond.Method, c.Cond.Val = lowerSome(t, pick(t, "IN", "NIN")), l
		default:
			c.Cond.Method, c.Cond.Val = lowerSome(t, pick(t, "EX", "NEX")), Val{Kind: "none"}
		}
		return c
	}, func(c caseCmp, x *ctx) error {
		x.nt(true)
		return checkCmp(c, x)
	})

	bigElems := func(t *rapid.T, ret bool) caseTree {
		n := size(t, 400)
		if chance(t, 5) {
			n = between(t, 900, 2500)
		}
		hit := map[int]bool{}
		for i, k := 0, between(t, 1, 4); i < k; i++ {
			hit[between(t, 0, n-1)] = true
		}
		pad := longText(t, 60)
		inv := chance(t, 30)
		var l []any
		for i := 0; i < n; i++ {
			e := map[string]any{"s0": "no", "n0": float64(i), "s1": fmt.Sprintf("%s%d", pad, i), "l0": []any{map[string]any{"s0": fmt.Sprintf("in%d", i)}}}
			if hit[i] != inv {
				e["s0"] = "yes"
			}
			l = append(l, e)
		}
		c := caseTree{Msg: withDoc(t, genMsg(t), map[string]any{"o0": map[string]any{"l0": l}, "s0": "no"}), Loader: styled(t, loaders...), TreeSp: between(t, 0, 2)}
		q := &Node{Op: pick(t, opAny, opAny, opAll), Parents: []Path{{Root: rootAbs, Steps: []Step{{K: "o0"}, {K: "l0"}}}}, Sp: between(t, 0, 7)}
		if chance(t, 50) {
			q.Parents[0].Steps = append(q.Parents[0].Steps, Step{All: true})
		}
		rel := func(k string) *Path { return &Path{Root: rootRel, Steps: []Step{{K: k}}} }
		switch between(t, 0, 2) {
		case 0:
			q.Kids = []*Node{leaf(Cond{Path: rel("s0"), Method: "EQ", Val: Val{Kind: "str", S: "yes"}})}
		case 1:
			q.Kids = []*Node{leaf(Cond{Path: rel("n0"), Method: pick(t, "GE", "LT", "EQ", "GT"), Val: Val{Kind: "num", S: fmt.Sprint(between(t, 0, n))}})}
		default:
			in := &Node{Op: opAny, Parents: []Path{*rel("l0")}, Kids: []*Node{leaf(Cond{Path: rel("s0"), Method: "EQ", Val: Val{Kind: "str", S: fmt.Sprintf("in%d", between(t, 0, n))}})}}
			q.Kids = []*Node{in}
		}
		if ret && q.Op == opAny {
			q.Ret = map[string]Path{"n": *rel("n0"), "s": *rel("s1")}
		}
		c.Tree = q
		return c
	}
	for _, p := range []string{"C05", "C09"} {
		ret := p == "C09"
		addFacet(p, "long-list", 450, func(t *rapid.T) caseTree { return bigElems(t, ret) }, func(c caseTree, x *ctx) error {
			x.nt(c.Tree.Op == opAny || !ret)
			_, err := againstModel(c, x, true)
			return err
		})
	}
	addFacet("C08", "long", 300, func(t *rapid.T) caseTree {
		c := bigElems(t, true)
		d := c.Msg.Doc.(map[string]any)
		d["s1"] = longText(t, 5000)
		if chance(t, 50) {
			return c
		}
		m := pick(t, "EQ", "NEQ")
		other := d["s1"].(string)
		if chance(t, 50) {
			other = instance(t, other)
		}
		c.Tree = &Node{Op: pick(t, opAnd, opOr), Kids: []*Node{c.Tree, leaf(Cond{Path: &Path{Root: rootAbs, Steps: []Step{{K: "s1"}}}, Method: m, Val: Val{Kind: "str", S: other}})}}
		return c
	}, func(c caseTree, x *ctx) error {
		x.nt(true)
		return checkRawDecoded(c, x)
	})

	addFacet("C10", "deep-and-wide", 400, func(t *rapid.T) caseStore {
		return caseStore{Rule: bigRule(t, 14, 130), Msgs: []Msg{bigMsg(t)}, Loader: styled(t, loaders...), Used: chance(t, 50), Via: []string{pick(t, stores...), pick(t, stores...)}}
	}, func(c caseStore, x *ctx) error {
		sizes(c.Rule.Tree, x)
		return checkRoundtrip(c, x)
	})

	addFacet("C11", "deep-and-wide", 700, func(t *rapid.T) caseHash {
		c := caseHash{Rule: bigRule(t, 14, 130), Load: styled(t, loaders...), Load2: styled(t, loaders...), Use: between(t, 0, 7)}
		for i, k := 0, between(t, 0, 2); i < k; i++ {
			c.Edits = append(c.Edits, edit{pick(t, presentationEdits...), between(t, 0, 300), between(t, 0, 6)})
		}
		if chance(t, 60) {
			c.Edits = append(c.Edits, edit{pick(t, semanticEdits...), between(t, 0, 300), between(t, 0, 6)})
		}
		return c
	}, func(c caseHash, x *ctx) error {
		sizes(c.Rule.Tree, x)
		return checkHashes(c, x)
	})

	addFacet("C13", "long-history", 30, func(t *rapid.T) caseHist {
		c := caseHist{Loader: styled(t, loaders...)}
		n := size(t, 140)
		o := genOpt{attrs: true}
		doc := genDoc(t, o)
		base := withDoc(t, genMsg(t), doc)
		for i := 0; i < n; i++ {
			m := base
			m.ID = fmt.Sprintf("m%d", i)
			d := deepCopy(doc).(map[string]any)
			d["s0"], d["n0"] = fmt.Sprintf("z%d", i), float64(i%50)
			m.Doc = d
			if i%3 == 0 {
				setMsgField(&m, pick(t, msgFields[1:]...), pickAt(i, "a", "b", "prod", "GET", ""), i)
			}
			c.Msgs = append(c.Msgs, m)
		}
		abs := func(k string) *Path { return &Path{Root: rootAbs, Steps: []Step{{K: k}}} }
		for i, k := 0, between(t, 1, 5); i < k; i++ {
			r := genFrame(t, i, true)
			r.Tree = &Node{Op: pick(t, opAnd, opOr), Kids: []*Node{
				leaf(Cond{Path: abs("s0"), Method: pick(t, "EQ", "NEQ", "RE"), Val: Val{Kind: "str", S: fmt.Sprintf("z%d", between(t, 0, n))}}),
				leaf(Cond{Path: abs("n0"), Method: pick(t, "LT", "GE", "EQ"), Val: Val{Kind: "num", S: fmt.Sprint(between(t, 0, 50))}}),
				genTree(t, scope{doc: doc}, between(t, 0, 2), o),
			}}
			for _, k := range r.Tree.Kids[:1] {
				if k.Cond.Method == "RE" {
					k.Cond.Val.Kind = "re"
				}
			}
			c.Rules = append(c.Rules, r)
		}
		modes := []string{docRaw, docIntf, docBoth}
		mode := pick(t, modes...)
		for i := 0; i < n; i++ {
			c.Ops = append(c.Ops, histOp{"check", i, 0, mode, 0})
		}
		for i, k := 0, between(t, 1, 40); i < k; i++ {
			c.Ops = append(c.Ops, histOp{pick(t, histOps...), between(t, 0, n-1), between(t, 0, len(c.Rules)-1), pick(t, modes...), between(t, 0, 3)})
		}
		return c
	}, func(c caseHist, x *ctx) error {
		x.nt(len(c.Ops) > 20)
		return checkHist(c, x)
	})

	addFacet("C14", "deep-and-wide", 900, func(t *rapid.T) caseValid {
		c := caseValid{How: styled(t, validHows...), Msg: bigMsg(t), Rule: bigRule(t, 14, 130)}
		if kindOfHow(c.How) == "bson" {
			c.Rule.TreeSp = between(t, 0, 1)
		}
		if chance(t, 70) {
			var nodes []*Node
			c.Rule.Tree.walk(func(n *Node) { nodes = append(nodes, n) })
			n := nodes[between(t, 0, len(nodes)-1)]
			d := genDefect(t, n.Op == opCond)
			if d.Kind == "scalar" && d.A == "null" && n == c.Rule.Tree {
				d.A = "text"
			}
			n.Bad = &d
		}
		return c
	}, func(c caseValid, x *ctx) error {
		sizes(c.Rule.Tree, x)
		bad := ""
		c.Rule.Tree.walk(func(n *Node) {
			if n.Bad != nil {
				bad = n.Bad.Kind
			}
		})
		x.class("defect %v", bad != "")
		_, lerr, err := offer(c.list(), c.How)
		if err != nil {
			return err
		}
		if (lerr != nil) != (bad != "") {
			return violated("defect %q, loading gives %v\n%s", bad, lerr, toYAML(c.Rule.generic()))
		}
		return nil
	})

	addFacet("C16", "deep-and-wide", 900, func(t *rapid.T) caseMongo {
		a, b := bigDoc(), bigDoc()
		b["s0"], b["n0"] = "z1", -3.0
		d := bigDoc()
		d["t0"] = []any{"no0", "no3"}
		delete(d["o0"].(map[string]any), "k0")
		return caseMongo{Tree: bigTree(t, 14, 130), Docs: []any{a, b, d}, Base: pick(t, mongoBases...), Loader: pick(t, "yaml", "json"), Sp: between(t, 0, 3)}
	}, func(c caseMongo, x *ctx) error {
		sizes(c.Tree, x)
		return checkMongo(c, x)
	})

	addFacet("C17", "many", 25, func(t *rapid.T) caseCover {
		c := caseCover{Loader: styled(t, loaders...), Mode: pick(t, docRaw, docIntf)}
		nm, nr := size(t, 130), size(t, 70)
		base := genMsg(t)
		for i := 0; i < nm; i++ {
			m := base
			m.ID = fmt.Sprintf("m%d", (i*7)%(nm*8))
			m.HasDoc, m.Doc = true, map[string]any{"n0": float64(i)}
			c.Msgs = append(c.Msgs, m)
		}
		k := between(t, 1, 9)
		for i := 0; i < nr; i++ {
			r := anyRule(pickAt(i, "allow", "alert", "block"), leaf(Cond{Path: &Path{Root: rootAbs, Steps: []Step{{K: "n0"}}}, Method: pickAt(i/3, "GT", "LT", "EQ"), Val: Val{Kind: "num", S: fmt.Sprint((i * k) % nm)}}))
			r.ID = fmt.Sprintf("r%d", i)
			c.Rules = append(c.Rules, r)
		}
		return c
	}, checkCoverage)

	addFacet("C18", "many", 60, func(t *rapid.T) caseMsgs {
		c := caseMsgs{Bad: -1, File: chance(t, 30), Form: styled(t, "yaml", "json"), Loader: styled(t, loaders...)}
		var pool []loadMsg
		for i := 0; i < 4; i++ {
			pool = append(pool, genLoadMsg(t, i))
		}
		n := size(t, 260)
		for i := 0; i < n; i++ {
			l := pool[i%len(pool)]
			l.Msg.ID = fmt.Sprint(i)
			l.Msg.Src = fmt.Sprintf("w%d", i)
			c.Msgs = append(c.Msgs, l)
		}
		if chance(t, 30) {
			c.Bad, c.BadT = between(t, 0, n-1), pick(t, badTimes...)
		}
		return c
	}, func(c caseMsgs, x *ctx) error {
		x.nt(true)
		return checkMessages(c, x)
	})

	addFacet("C19", "many", 60, func(t *rapid.T) caseLoad {
		c := caseLoad{How: styled(t, loadHows...), Bad: -1, File: "rules.yaml", Msg: bigMsg(t)}
		n := size(t, 260)
		for i := 0; i < n; i++ {
			r := anyRule(pickAt(i, "allow", "alert", "block"), bigLeaf(i%2 == 0, i, i))
			r.ID = fmt.Sprintf("r%d", i)
			c.Rules = append(c.Rules, r)
		}
		c.Rules[between(t, 0, n-1)].Tree = bigTree(t, 10, 60)
		if strings.HasSuffix(kindOfHow(c.How), "defs") {
			d := genDefs(t, nil)
			c.Defs = &d
		}
		if chance(t, 30) {
			c.Bad, c.Break = between(t, 0, n-1), "decision"
			if _, ok := breakages[c.Break]; !ok {
				c.Break = sortedKeys(breakages)[0]
			}
		}
		return c
	}, func(c caseLoad, x *ctx) error {
		x.nt(len(c.Rules) > 20)
		return checkLoad(c, x)
	})

	addFacet("C23", "deep-and-wide", 400, func(t *rapid.T) caseShow {
		c := caseShow{Rule: bigRule(t, 14, 130), Msg: bigMsg(t), Loader: styled(t, loaders...), Use: between(t, 0, 7)}
		if chance(t, 30) {
			c.Via = pick(t, stores...)
		}
		return c
	}, func(c caseShow, x *ctx) error {
		sizes(c.Rule.Tree, x)
		return checkShow(c, x)
	})
}

func pickAt[T any](i int, l ...T) T { return l[i%len(l)] }
