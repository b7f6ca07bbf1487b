package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
)

// Adapters to the engine: loading, messages, outcomes.

const (
	docRaw  = "raw"  // document as bytes
	docIntf = "intf" // document decoded
	docBoth = "both"
)

func buildMsg(m *Msg, mode string) *me.MessageAttributes {
	a := &me.MessageAttributes{
		MessageID: m.ID, SourceService: m.Src, DestinationService: m.Dst, SourceIp: m.SrcIP, DestinationIp: m.DstIP,
		DestinationPort: m.Port, RequestPath: m.Path, RequestHost: m.Host, RequestMethod: m.Method, ContextProtocol: m.Proto,
		ContextType: m.Type, RequestSize: m.Size, RequestUseragent: m.UA, EncryptionType: m.EncType, Domain: m.Domain,
		SourceNamespace: m.SrcNS, DestinationNamespace: m.DstNS, SourceCluster: m.SrcCl, DestinationCluster: m.DstCl,
	}
	if m.EncVer != nil {
		v := *m.EncVer
		a.EncryptionVersion = &v
	}
	a.SourceLabels = copyLabels(m.SrcLabels)
	a.DestinationLabels = copyLabels(m.DstLabels)
	a.RequestTime = time.Unix(int64(m.Sec)+1600000000/86400*86400, 0).UTC().Format(time.RFC3339)
	if err := me.AddTimeInfoToMessage(a); err != nil {
		panic(err)
	}
	me.AddNetIpToMessage(a)
	if m.HasDoc {
		if mode == docRaw || mode == docBoth {
			b := renderDoc(m.Doc, m.Style)
			a.RequestJsonRaw = &b
		}
		if mode == docIntf || mode == docBoth {
			d := deepCopy(m.Doc)
			a.RequestRawInterface = &d
		}
	}
	return a
}

func copyLabels(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// loadRules loads rules through one of the loaders.
func loadRules(rs []RuleAST, how string) (me.Rules, error) {
	return loadText(rulesGeneric(rs), how)
}

func loadText(g obj, how string) (rules me.Rules, err error) {
	switch kindOfHow(how) {
	case "yaml", "", "json-as-yaml":
		return me.YamlReadRulesFromString(textOf(g, how))
	case "json":
		err = json.Unmarshal([]byte(textOf(g, how)), &rules)
		return rules, err
	}
	panic("loader " + how)
}

var loaders = []string{"yaml", "json", "json-as-yaml"}

// mustLoad loads rules that are valid by construction: an error or panic is a violation.
func mustLoad(rs []RuleAST, how string) (rules me.Rules, err error) {
	gerr := guarded("loading", func() { rules, err = loadRules(rs, how) })
	if gerr != nil {
		return rules, gerr
	}
	if err != nil {
		return rules, violated("a valid rule is rejected by the %s loader: %v\n%s", how, err, toYAML(rulesGeneric(rs)))
	}
	if len(rules.Rules) != len(rs) {
		return rules, violated("%d rules written, %d loaded", len(rs), len(rules.Rules))
	}
	for i := range rules.Rules {
		var perr error
		if gerr := guarded("preparation", func() { perr = rules.Rules[i].SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) }); gerr != nil {
			return rules, gerr
		}
		if perr != nil {
			return rules, violated("a valid rule cannot be prepared: %v\n%s", perr, toYAML(rs[i].generic()))
		}
	}
	return rules, nil
}

type outcome struct {
	Decision int
	Text     string
	Rule     int
	Results  []int
	Applied  []int
	Desc     string
	Extra    [][]map[string]any
}

func checkAll(msg *me.MessageAttributes, rules *me.Rules) (o outcome, err error) {
	err = guarded("Check", func() {
		o.Decision, o.Text, o.Rule, o.Results, o.Applied, o.Desc, o.Extra = me.Check(msg, rules)
	})
	return o, err
}

func checkOne(msg *me.MessageAttributes, rule *me.Rule) (code int, d data, err error) {
	err = guarded("CheckOneRule", func() { code, d = me.CheckOneRule(msg, rule) })
	return
}

func testConds(msg *me.MessageAttributes, rule *me.Rule) (ok bool, d data, err error) {
	err = guarded("TestConditions", func() { ok, d = me.TestConditions(rule, msg) })
	return
}

// cleanData drops nil values (a requested value that does not exist) and normalises types.
func cleanData(d data) []string {
	out := []string{}
	for _, e := range d {
		c := map[string]any{}
		for k, v := range e {
			if v != nil {
				c[k] = v
			}
		}
		out = append(out, canon(c))
	}
	return out
}

func sameData(a, b data, ordered bool) bool {
	x, y := cleanData(a), cleanData(b)
	if !ordered {
		sort.Strings(x)
		sort.Strings(y)
	}
	return strings.Join(x, "\x00") == strings.Join(y, "\x00")
}

// orderedData tells whether the order of the returned entries is determined: entries
// of objects and deep scans come in no particular order.
func orderedData(n *Node) bool {
	ok := true
	n.walk(func(m *Node) {
		if m.Op == opAny && len(m.Ret) > 0 {
			for _, p := range m.Parents {
				if p.Root == rootStar || len(p.Steps) == 0 {
					ok = false
					continue
				}
				last := p.Steps[len(p.Steps)-1]
				for _, s := range p.Steps {
					if s.Deep {
						ok = false
					}
				}
				if !last.All && !p.multi() {
					ok = false // may be an object
				}
			}
		}
	})
	return ok
}

func bsonRoundTrip(r *me.Rule) (me.Rule, error) {
	var out me.Rule
	b, err := bson.Marshal(r)
	if err != nil {
		return out, err
	}
	err = bson.Unmarshal(b, &out)
	return out, err
}

func intsEqual(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprint(err))
	}
}
