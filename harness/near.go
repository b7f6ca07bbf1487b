package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// C13: rules that differ in little and share their texts, in a process of their own, so
// that whatever the engine keeps between rules is filled by the rules of the case.

type caseNear struct {
	Rules  []RuleAST `json:"rules"`
	Msgs   []Msg     `json:"msgs"`
	Loader string    `json:"loader"`
}

var nearTexts = []string{"a", "A", "b", "a,b", "1", "ab", "read", "10.0.0.1"}

func nearCond(t *rapid.T, inside bool) Cond {
	c := Cond{}
	switch k := between(t, 0, 9); {
	case inside:
		c.Path = &Path{Root: rootRel, Steps: []Step{{K: pick(t, "s", "S")}}}
	case k <= 3:
		c.Path = &Path{Root: rootAbs, Steps: []Step{{K: pick(t, "k", "K", "kk")}}}
	case k <= 6:
		c.Attr = pick(t, "domain", "requestUseragent", "encryptionType")
	default:
		c.Attr = pick(t, "senderLabel", "receiverLabel") + "[" + pick(t, "k", "K") + "]"
	}
	s := pick(t, nearTexts[:7]...)
	switch c.Method = pick(t, "EQ", "NEQ", "IN", "NIN", "RE", "NRE", "EQ", "IN"); c.Method {
	case "EQ", "NEQ":
		c.Val = Val{Kind: "str", S: s}
	case "RE", "NRE":
		c.Val = Val{Kind: "re", S: s}
	default:
		c.Val = Val{Kind: "list", List: []string{s}, NoBr: true}
		if s == "a,b" {
			c.Val.List = []string{"a", "b"}
		}
	}
	return c
}

func nearTree(t *rapid.T) *Node {
	n := leaf(nearCond(t, false))
	if chance(t, 50) {
		n = &Node{Op: pick(t, opAny, opAll), Parents: []Path{{Root: rootAbs, Steps: []Step{{K: pick(t, "l", "L", "ll")}}}}, Kids: []*Node{leaf(nearCond(t, true))}}
	}
	if chance(t, 15) {
		n = &Node{Op: opNot, Kids: []*Node{n}}
	}
	return n
}

func genNear(t *rapid.T) caseNear {
	c := caseNear{Loader: styled(t, loaders...)}
	text := func() string { return pick(t, nearTexts...) }
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		m := genMsg(t)
		m.ID = fmt.Sprintf("m%d", i)
		m.Domain, m.UA, m.EncType, m.Src, m.Path = text(), text(), text(), text(), text()
		m.Method = pick(t, "GET", "read", "a", "A", "1")
		m.SrcIP = pick(t, "10.0.0.1", "10.0.0.2")
		m.SrcLabels, m.DstLabels = map[string]string{"k": text(), "K": text()}, map[string]string{"k": text(), "K": text()}
		list := func() any {
			l := []any{}
			for j, k := 0, between(t, 1, 2); j < k; j++ {
				l = append(l, map[string]any{"s": text(), "S": text()})
			}
			return l
		}
		c.Msgs = append(c.Msgs, withDoc(t, m, map[string]any{"k": text(), "K": text(), "kk": text(), "l": list(), "L": list(), "ll": list()}))
	}
	for i, n := 0, between(t, 2, 6); i < n; i++ {
		r := anyRule(genDecision(t), nil)
		r.ID = fmt.Sprintf("r%d", i)
		switch between(t, 0, 6) {
		case 0:
			s := text()
			r.Sender = Party{Type: pick(t, "workload", "*"), Names: strings.Split(s, ",")}
			if s == "10.0.0.1" && chance(t, 50) {
				r.Sender.Type = "subnet"
			}
		case 1:
			r.Ops = strings.Split(text(), ",")
		case 2:
			r.Proto, r.ResNames = c.Msgs[0].Proto, strings.Split(text(), ",")
		default:
			r.Tree = nearTree(t)
		}
		c.Rules = append(c.Rules, r)
	}
	return c
}

// checkNear compares every rule with the model, in this process.
func checkNear(c caseNear) error {
	rules, err := mustLoad(c.Rules, c.Loader)
	if err != nil {
		return err
	}
	for i := range c.Msgs {
		mod := &model{msg: &c.Msgs[i]}
		want := make([]int, len(c.Rules))
		for j, r := range c.Rules {
			want[j], _ = mod.rule(r)
		}
		for _, mode := range []string{docRaw, docIntf} {
			o, err := checkAll(buildMsg(&c.Msgs[i], mode), &rules)
			if err != nil {
				return err
			}
			if !intsEqual(o.Results, want) {
				return violated("message %d (%s): results %v, expected %v", i, mode, o.Results, want)
			}
		}
	}
	return nil
}

// fresh judges the case in the environment and is what the facet starts.
func fresh() int {
	var c caseNear
	if err := json.Unmarshal([]byte(os.Getenv("VH_CASE")), &c); err != nil {
		fmt.Println(err)
		return 2
	}
	if err := checkNear(c); err != nil {
		fmt.Println(err)
		return 1
	}
	return 0
}

func init() {
	addFacet("C13", "near", 3000, genNear, func(c caseNear, x *ctx) error {
		b, err := json.Marshal(c)
		if err != nil {
			return err
		}
		texts, trees := map[string]bool{}, 0
		for _, r := range c.Rules {
			if r.Tree != nil {
				trees++
				r.Tree.walk(func(n *Node) {
					if n.Cond != nil {
						s := n.Cond.Val.text()
						x.class("a value twice %v", texts[s])
						texts[s] = true
					}
				})
			}
		}
		x.nt(trees > 1)
		self, err := os.Executable()
		if err != nil {
			return err
		}
		out, err := runChild(self, []string{"fresh"}, 60*time.Second, []string{"VH_CASE=" + string(b)})
		var exit *exec.ExitError
		if errors.As(err, &exit) && exit.ExitCode() == 1 {
			return violated("%s", out)
		}
		if err != nil {
			return fmt.Errorf("fresh process: %v %s", err, out)
		}
		return nil
	})

	addFacet("C13", "many-rules", 150, func(t *rapid.T) caseNear {
		c := caseNear{Loader: styled(t, loaders...)}
		m := genMsg(t)
		doc := map[string]any{}
		for _, k := range []string{"k", "K", "kk"} {
			doc[k] = pick(t, nearTexts...)
			l := []any{}
			for j, n := 0, between(t, 3, 12); j < n; j++ {
				l = append(l, map[string]any{"s": pick(t, nearTexts...), "S": pick(t, nearTexts...)})
			}
			doc[strings.ReplaceAll(strings.ReplaceAll(k, "k", "l"), "K", "L")] = l
		}
		c.Msgs = []Msg{withDoc(t, m, doc)}
		var trees []*Node
		for i, n := 0, between(t, 2, 6); i < n; i++ {
			trees = append(trees, nearTree(t))
		}
		dec := genDecision(t)
		for i, n := 0, size(t, 70); i < n; i++ {
			r := anyRule(dec, trees[i%len(trees)])
			r.ID = fmt.Sprintf("r%d", i)
			c.Rules = append(c.Rules, r)
		}
		return c
	}, func(c caseNear, x *ctx) error {
		any := 0
		for _, r := range c.Rules {
			r.Tree.walk(func(n *Node) {
				if n.Op == opAny || n.Op == opAll {
					any++
				}
			})
		}
		x.nt(len(c.Rules) > 10 && any > 2)
		x.class("rules %d0-", len(c.Rules)/10)
		return checkNear(c)
	}).race = true
}
