package main

import (
	"fmt"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C02

type caseRule struct {
	Rule   RuleAST `json:"rule"`
	Msg    Msg     `json:"msg"`
	Loader string  `json:"loader"`
}

// instance draws a string that matches the pattern, or nearly does.
func instance(t *rapid.T, pat string) string {
	var b strings.Builder
	for _, r := range pat {
		switch r {
		case '*':
			b.WriteString(pick(t, "", "a", "xy", ".", "/", "a/b", "ns:", "é", "a\nb", "\n"))
		case '?':
			b.WriteString(pick(t, "a", "x", ".", "/", "日", "\n"))
		default:
			b.WriteRune(r)
		}
	}
	s := []rune(b.String())
	switch between(t, 0, 7) {
	case 4:
		return "x" + string(s)
	case 5:
		return string(s) + "x"
	case 6:
		if len(s) > 0 {
			i := between(t, 0, len(s)-1)
			return string(s[:i]) + string(s[i+1:])
		}
	case 7:
		if len(s) > 0 {
			s[between(t, 0, len(s)-1)] = 'x'
		}
	}
	return string(s)
}

var oddNames = []string{"a+b", "(a)", "a|b", "a{2}", "a\\b", "^a$", "a.b", "$x", "a/b", "a:b", "a-b_c", "é", "\\d", "a||b", ".", "()", "x{1,"}

func genNames(t *rapid.T, pool []string) []string {
	var names []string
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		if chance(t, 25) {
			s := pick(t, oddNames...)
			s = strings.ReplaceAll(s, ",", "")
			if chance(t, 30) {
				s = pick(t, "*", "?", "") + s + pick(t, "*", "?", "")
			}
			names = append(names, s)
			continue
		}
		names = append(names, genGlob(t, pool))
	}
	if chance(t, 4) {
		names = padded(t, names, "zz%d")
	}
	return names
}

// padded makes a long list of the given one by elements that match nothing.
func padded(t *rapid.T, names []string, filler string) []string {
	names = append([]string{}, names...)
	for i, n := 0, between(t, 1, 18); i < n; i++ {
		names = insert(names, between(t, 0, 30), fmt.Sprintf(filler, i))
	}
	return names
}

func checkFrame(c caseRule, x *ctx) error {
	m := &model{msg: &c.Msg}
	want, _ := m.rule(c.Rule)
	x.class("applies %v", want > 0)
	rules, err := mustLoad([]RuleAST{c.Rule}, c.Loader)
	if err != nil {
		return err
	}
	code, _, err := checkOne(buildMsg(&c.Msg, docRaw), &rules.Rules[0])
	if err != nil {
		return err
	}
	if code != want {
		return violated("the rule gives %d, expected %d", code, want)
	}
	o, err := checkAll(buildMsg(&c.Msg, docRaw), &rules)
	if err != nil {
		return err
	}
	if o.Decision != want {
		return violated("Check decides %d, expected %d", o.Decision, want)
	}
	return nil
}

func init() {
	rules["C02"] = "non-trivial: some list element contains a wildcard, a special character or a CIDR block, or there are several elements"
	addFacet("C02", "names", 9000, func(t *rapid.T) caseRule {
		c := caseRule{Msg: genMsg(t), Rule: anyRule("allow", nil), Loader: styled(t, loaders...)}
		c.Rule.Sender = Party{Type: pick(t, "workload", "*"), Names: genNames(t, workloads[:11]), Sep: pick(t, seps...)}
		c.Rule.Receiver = Party{Type: pick(t, "workload", "hostname", "*"), Names: genNames(t, append(hosts[:7:7], workloads[:11]...)), Sep: pick(t, seps...)}
		if chance(t, 70) {
			c.Msg.Src = instance(t, pick(t, c.Rule.Sender.Names...))
		}
		if chance(t, 70) {
			s := instance(t, pick(t, c.Rule.Receiver.Names...))
			if c.Rule.Receiver.Type == "hostname" {
				c.Msg.Host = s
			} else {
				c.Msg.Dst = s
			}
		}
		return c
	}, func(c caseRule, x *ctx) error {
		all := strings.Join(append(append([]string{}, c.Rule.Sender.Names...), c.Rule.Receiver.Names...), ",")
		x.nt(strings.ContainsAny(all, "*?.+()[]{}|\\^$") || len(c.Rule.Sender.Names)+len(c.Rule.Receiver.Names) > 2)
		return checkFrame(c, x)
	})
	addFacet("C02", "subnets", 9000, func(t *rapid.T) caseRule {
		c := caseRule{Msg: genMsg(t), Rule: anyRule("block", nil), Loader: styled(t, loaders...)}
		side := between(t, 0, 2)
		if side != 1 {
			c.Rule.Sender, c.Msg.SrcIP = genSubnetParty(t)
		}
		if side != 0 {
			c.Rule.Receiver, c.Msg.DstIP = genSubnetParty(t)
		}
		return c
	}, func(c caseRule, x *ctx) error {
		all := strings.Join(append(append([]string{}, c.Rule.Sender.Names...), c.Rule.Receiver.Names...), ",")
		x.nt(strings.Contains(all, "/") || len(c.Rule.Sender.Names)+len(c.Rule.Receiver.Names) > 2)
		x.class("ipv6 %v", strings.Contains(all, ":"))
		return checkFrame(c, x)
	})
	addFacet("C02", "bad-subnet", 2500, func(t *rapid.T) caseRule {
		c := caseRule{Msg: genMsg(t), Rule: anyRule("block", nil), Loader: styled(t, loaders...)}
		p, ip := genSubnetParty(t)
		i := between(t, 0, len(p.Names))
		bad := pick(t, "abc", "10.0.0.256", "10.0.0.0/33", "10.0.0", "1.2.3.4/", "/8", "::g", "2001:db8::/129", "10.*", "ns:a", "10.0.0.0/-1", "1.2.3.4.5", "")
		p.Names = append(p.Names[:i:i], append([]string{bad}, p.Names[i:]...)...)
		if chance(t, 50) {
			c.Rule.Sender, c.Msg.SrcIP = p, ip
		} else {
			c.Rule.Receiver, c.Msg.DstIP = p, ip
		}
		return c
	}, func(c caseRule, x *ctx) error {
		x.nt(true)
		var loaded me.Rules
		var err error
		if gerr := guarded("loading", func() { loaded, err = loadRules([]RuleAST{c.Rule}, c.Loader) }); gerr != nil {
			return gerr
		}
		if err != nil {
			return nil // rejected even earlier
		}
		r := &loaded.Rules[0]
		code, _, err := checkOne(buildMsg(&c.Msg, docRaw), r)
		if err != nil {
			return err
		}
		if code != me.DEFAULT {
			return violated("a rule with a malformed subnet list applies (unprepared)")
		}
		var perr, verr error
		if gerr := guarded("preparation", func() { perr = r.SetPredefinedStringsAndLists(me.PredefinedStringsAndLists{}) }); gerr != nil {
			return gerr
		}
		if perr == nil {
			return violated("preparation accepts the malformed subnet list %q / %q", c.Rule.Sender.text(), c.Rule.Receiver.text())
		}
		ok := anyRule("allow", nil)
		for _, list := range [][]RuleAST{{c.Rule}, {ok, c.Rule}, {c.Rule, ok}, {ok, c.Rule, ok}} {
			all, err := loadRules(list, c.Loader)
			if err != nil {
				return err
			}
			var e1, e2 error
			if gerr := guarded("preparation of all rules", func() {
				e1 = me.PrepareRules(&all)
				e2 = me.PrepareRulesWithPredefinedStrings(&all, me.PredefinedStringsAndLists{})
			}); gerr != nil {
				return gerr
			}
			if e1 == nil || e2 == nil {
				return violated("preparation of %d rules accepts the malformed subnet list: %v, %v", len(list), e1, e2)
			}
		}
		if gerr := guarded("validation", func() { verr = me.ValidateRule(r) }); gerr != nil {
			return gerr
		}
		if verr == nil {
			return violated("validation accepts the malformed subnet list")
		}
		if code, _, err = checkOne(buildMsg(&c.Msg, docRaw), r); err != nil {
			return err
		}
		if code != me.DEFAULT {
			return violated("a rule with a malformed subnet list applies")
		}
		return nil
	})

	rules["C03"] = "non-trivial: protocol is not '*', or the operation is a group or has a wildcard or several elements"
	addFacet("C03", "protocol-resource", 9000, func(t *rapid.T) caseRule {
		c := caseRule{Msg: genMsg(t), Rule: anyRule("alert", nil), Loader: styled(t, loaders...)}
		c.Rule.Proto = pick(t, "http", "HTTP", "Http", "tcp", "kafka", "*", "https", "grpc")
		c.Msg.Proto = pick(t, "http", "HTTP", "tcp", "TCP", "kafka", "KAFKA", "https", "grpc", "")
		if chance(t, 60) {
			c.Msg.Proto = pick(t, strings.ToUpper(c.Rule.Proto), strings.ToLower(c.Rule.Proto))
		}
		c.Rule.ResType = pick(t, "*", "path", "port", "kafkaTopic", "", "Path")
		if chance(t, 60) {
			c.Msg.Type = c.Rule.ResType
		}
		if c.Rule.Proto == "tcp" {
			c.Rule.ResNames = genNames(t, []string{"80", "443", "8080", "8081", "18080"})
			if chance(t, 70) {
				c.Msg.Port = instance(t, pick(t, c.Rule.ResNames...))
			}
		} else {
			c.Rule.ResNames = genNames(t, paths)
			if chance(t, 70) {
				c.Msg.Path = instance(t, pick(t, c.Rule.ResNames...))
			}
		}
		c.Rule.ResSep = pick(t, seps...)
		return c
	}, func(c caseRule, x *ctx) error {
		x.nt(c.Rule.Proto != "*")
		x.class("protocol %s", c.Rule.Proto)
		return checkFrame(c, x)
	})
	addFacet("C03", "operation", 6000, func(t *rapid.T) caseRule {
		c := caseRule{Msg: genMsg(t), Rule: anyRule("allow", nil), Loader: styled(t, loaders...)}
		if chance(t, 45) {
			c.Rule.Ops = []string{pick(t, "read", "READ", "write", "WRITE", "*", "read", "write")}
		} else {
			c.Rule.Ops = genNames(t, methodsPool[:12])
			if chance(t, 60) {
				c.Msg.Method = instance(t, pick(t, c.Rule.Ops...))
			}
			c.Rule.OpSep = pick(t, seps...)
		}
		if chance(t, 20) {
			c.Msg.Method = instance(t, pick(t, methodsPool...))
		}
		return c
	}, func(c caseRule, x *ctx) error {
		x.nt(len(c.Rule.Ops) > 1 || strings.ContainsAny(c.Rule.Ops[0], "*?.+()[]") || opMatch([]string{c.Rule.Ops[0]}, "GET") != (c.Rule.Ops[0] == "GET"))
		return checkFrame(c, x)
	})
}

func genSubnetParty(t *rapid.T) (Party, string) {
	p := Party{Type: "subnet"}
	addrs := []string{}
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		if chance(t, 25) {
			p.Names = append(p.Names, pick(t, subnets...))
			addrs = append(addrs, pick(t, addresses[:10]...))
			continue
		}
		if chance(t, 70) {
			var b [4]int
			for k := range b {
				b[k] = pick(t, 0, 1, 10, 127, 128, 192, 254, 255, 63, 64)
			}
			bits := between(t, 0, 32)
			ip := fmt.Sprintf("%d.%d.%d.%d", b[0], b[1], b[2], b[3])
			if chance(t, 80) {
				p.Names = append(p.Names, fmt.Sprintf("%s/%d", ip, bits))
			} else {
				p.Names = append(p.Names, ip)
			}
			// flip one bit near the prefix boundary
			v := b[0]<<24 | b[1]<<16 | b[2]<<8 | b[3]
			if k := bits + between(t, -2, 1); k >= 0 && k < 32 && chance(t, 70) {
				v ^= 1 << (31 - k)
			}
			addrs = append(addrs, fmt.Sprintf("%d.%d.%d.%d", v>>24&255, v>>16&255, v>>8&255, v&255))
		} else {
			var w [8]int
			for k := range w {
				w[k] = pick(t, 0, 0, 1, 0x8000, 0xffff, 0xdb8, 0x2001)
			}
			bits := between(t, 0, 128)
			f := func(w [8]int, long bool) string {
				var s []string
				for _, e := range w {
					if long {
						s = append(s, fmt.Sprintf("%04X", e))
					} else {
						s = append(s, fmt.Sprintf("%x", e))
					}
				}
				return strings.Join(s, ":")
			}
			ip := f(w, chance(t, 30))
			if chance(t, 75) {
				p.Names = append(p.Names, fmt.Sprintf("%s/%d", ip, bits))
			} else {
				p.Names = append(p.Names, ip)
			}
			if k := bits + between(t, -2, 1); k >= 0 && k < 128 && chance(t, 60) {
				w[k/16] ^= 1 << (15 - k%16)
			}
			addrs = append(addrs, f(w, chance(t, 30)))
		}
	}
	p.Sep = pick(t, seps...)
	if chance(t, 4) {
		p.Names = padded(t, p.Names, "203.0.113.%d")
	}
	if chance(t, 4) {
		return p, pick(t, "", "not-an-ip", "10.0.0.1")
	}
	return p, pick(t, addrs...)
}
