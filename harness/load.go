package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/netip"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"pgregory.net/rapid"
)

// C18: messages from YAML. C19: rules from text and files.

type loadMsg struct {
	Msg   Msg    `json:"msg"`
	Time  string `json:"time"`
	Sec   int    `json:"sec"`
	Nanos int    `json:"nanos,omitempty"`
	LabSp int    `json:"labsp,omitempty"` // spaces in the label text
	Typed bool   `json:"typed,omitempty"` // a request_type is written as well
	Other bool   `json:"other,omitempty"` // the rules were written for another document
}

type caseMsgs struct {
	Msgs   []loadMsg `json:"msgs"`
	Rules  []RuleAST `json:"rules"`
	Bad    int       `json:"bad"` // index of the message with an invalid time, -1 none
	BadT   string    `json:"badt,omitempty"`
	File   bool      `json:"file,omitempty"`
	Form   string    `json:"form"` // yaml or json text
	Loader string    `json:"loader"`
}

func labelText(m map[string]string, sp int) string {
	if m == nil {
		return ""
	}
	var parts []string
	for _, k := range sortedKeys(m) {
		parts = append(parts, k+[]string{":", ": ", " : "}[sp%3]+m[k])
	}
	s := "{" + strings.Join(parts, []string{",", ", "}[sp/3%2]) + "}"
	if sp/6%2 == 1 {
		s = " " + s + " "
	}
	return s
}

func (l loadMsg) generic() obj {
	m := l.Msg
	o := obj{}
	add := func(k, v string) {
		if v != "" {
			o = append(o, kv{Key: k, Value: v})
		}
	}
	add("message_id", m.ID)
	add("sender_service", m.Src)
	add("receiver_service", m.Dst)
	add("sender_ip", m.SrcIP)
	add("receiver_ip", m.DstIP)
	add("sender_namespace", m.SrcNS)
	add("receiver_namespace", m.DstNS)
	add("sender_cluster", m.SrcCl)
	add("receiver_cluster", m.DstCl)
	add("receiver_port", m.Port)
	add("request_path", m.Path)
	add("request_host", m.Host)
	add("request_method", m.Method)
	add("request_user_agent", m.UA)
	add("request_protocol", m.Proto)
	add("encryption_type", m.EncType)
	add("domain", m.Domain)
	add("request_time", l.Time)
	add("sender_labels", labelText(m.SrcLabels, l.LabSp))
	add("receiver_labels", labelText(m.DstLabels, l.LabSp/2))
	if l.Typed {
		add("request_type", m.Type)
	}
	if m.Size != 0 {
		o = append(o, kv{Key: "request_size", Value: m.Size})
	}
	if m.EncVer != nil {
		o = append(o, kv{Key: "encryption_version", Value: *m.EncVer})
	}
	if m.HasDoc {
		d := kv{Key: "interface_raw", Value: docGeneric(m.Doc)}
		i := l.LabSp % (len(o) + 1)
		o = append(o[:i:i], append(obj{d}, o[i:]...)...)
	}
	return o
}

// docGeneric is a document in the form that is written as YAML.
func docGeneric(v any) any {
	switch w := v.(type) {
	case map[string]any:
		o := obj{}
		for _, k := range sortedKeys(w) {
			o = append(o, kv{Key: k, Value: docGeneric(w[k])})
		}
		return o
	case []any:
		l := []any{}
		for _, e := range w {
			l = append(l, docGeneric(e))
		}
		return l
	}
	return v
}

func impliedType(proto string) string {
	switch proto {
	case "HTTP", "http":
		return "path"
	case "TCP", "tcp":
		return "port"
	}
	return ""
}

func near(a, b float64) bool {
	d := a - b
	return d < 1e-6 && d > -1e-6
}

// sameFields compares the attributes of a loaded message with those written.
func sameFields(what string, a me.MessageAttributes, l loadMsg) error {
	m := l.Msg
	for _, f := range [][3]string{
		{"message_id", a.MessageID, m.ID}, {"sender_service", a.SourceService, m.Src}, {"receiver_service", a.DestinationService, m.Dst},
		{"sender_ip", a.SourceIp, m.SrcIP}, {"receiver_ip", a.DestinationIp, m.DstIP}, {"sender_namespace", a.SourceNamespace, m.SrcNS},
		{"receiver_namespace", a.DestinationNamespace, m.DstNS}, {"sender_cluster", a.SourceCluster, m.SrcCl}, {"receiver_cluster", a.DestinationCluster, m.DstCl},
		{"receiver_port", a.DestinationPort, m.Port}, {"request_path", a.RequestPath, m.Path}, {"request_host", a.RequestHost, m.Host},
		{"request_method", a.RequestMethod, m.Method}, {"request_user_agent", a.RequestUseragent, m.UA}, {"request_protocol", a.ContextProtocol, m.Proto},
		{"encryption_type", a.EncryptionType, m.EncType}, {"domain", a.Domain, m.Domain}, {"request_time", a.RequestTime, l.Time},
		{"request_type", a.ContextType, impliedType(m.Proto)},
	} {
		if f[1] != f[2] {
			return violated("%s: %s is %q, expected %q", what, f[0], f[1], f[2])
		}
	}
	if a.RequestSize != m.Size {
		return violated("%s: size %d, expected %d", what, a.RequestSize, m.Size)
	}
	if m.HasDoc {
		if a.RequestRawInterface == nil {
			return violated("%s: the document is lost", what)
		}
		if !reflect.DeepEqual(*a.RequestRawInterface, m.Doc) {
			return violated("%s: the document is %s (%T), expected %s", what, canon(*a.RequestRawInterface), *a.RequestRawInterface, canon(m.Doc))
		}
	} else if a.RequestRawInterface != nil {
		return violated("%s: a document that was not written", what)
	}
	if (a.EncryptionVersion == nil) != (m.EncVer == nil) || m.EncVer != nil && *a.EncryptionVersion != *m.EncVer {
		return violated("%s: encryption version %v, expected %v", what, a.EncryptionVersion, m.EncVer)
	}
	return nil
}

// sameDerived compares the addresses and times that are derived from the attributes.
func sameDerived(what string, a me.MessageAttributes, l loadMsg) error {
	for _, p := range [][3]string{{"sender", a.SourceNetIp.String(), l.Msg.SrcIP}, {"receiver", a.DestinationNetIp.String(), l.Msg.DstIP}} {
		want := "<nil>"
		if ad, err := netip.ParseAddr(p[2]); err == nil {
			want = ad.Unmap().String()
		}
		if p[1] != want {
			return violated("%s: %s address %s, expected %s", what, p[0], p[1], want)
		}
	}
	sec := float64(l.Sec) + float64(l.Nanos)/1e9
	if !near(a.RequestTimeSecondsFromMidnightUTC, sec) || !near(a.RequestTimeMinutesFromMidnightUTC*60, sec) || !near(a.RequestTimeHoursFromMidnightUTC*3600, sec) {
		return violated("%s: %q gives %v s, %v min, %v h from midnight, expected %v s", what, l.Time,
			a.RequestTimeSecondsFromMidnightUTC, a.RequestTimeMinutesFromMidnightUTC, a.RequestTimeHoursFromMidnightUTC, sec)
	}
	return nil
}

func checkMessages(c caseMsgs, x *ctx) error {
	list := []any{}
	for i, l := range c.Msgs {
		if i == c.Bad {
			l.Time = c.BadT
		}
		list = append(list, l.generic())
	}
	g := obj{{Key: "messages", Value: list}}
	text := textOf(g, c.Form)
	var got me.Messages
	var lerr error
	missing := false
	if err := guarded("loading messages", func() {
		if c.File {
			name := filepath.Join(scratch(), "messages.yaml")
			must(os.WriteFile(name, []byte(text), 0o644))
			if m, e := me.YamlReadMessagesFromFile(name + ".missing"); e == nil || len(m.Messages) > 0 {
				missing = true
			}
			got, lerr = me.YamlReadMessagesFromFile(name)
		} else {
			got, lerr = me.YamlReadMessagesFromString(text)
		}
	}); err != nil {
		return err
	}
	if missing {
		return violated("a file that does not exist is read as messages")
	}
	if c.Bad >= 0 && c.Bad < len(c.Msgs) {
		x.class("invalid time")
		if lerr == nil {
			return violated("message %d has the time %q and is accepted\n%s", c.Bad, c.BadT, text)
		}
		return nil
	}
	if lerr != nil {
		return violated("valid messages are rejected: %v\n%s", lerr, text)
	}
	if len(got.Messages) != len(c.Msgs) {
		return violated("%d messages written, %d loaded", len(c.Msgs), len(got.Messages))
	}
	again, err := throughJson(got)
	if err != nil {
		return err
	}
	if len(again.Messages) != len(got.Messages) {
		return violated("%d messages loaded, %d in the json form", len(got.Messages), len(again.Messages))
	}
	for i, l := range append(c.Msgs, c.Msgs...) {
		a := append(got.Messages, again.Messages...)[i]
		m := l.Msg
		if err := sameFields(fmt.Sprintf("message %d", i), a, l); err != nil {
			return err
		}
		if err := sameDerived(fmt.Sprintf("message %d", i), a, l); err != nil {
			return err
		}
		if !sameMeta(a.SourceLabels, m.SrcLabels) || !sameMeta(a.DestinationLabels, m.DstLabels) {
			return violated("message %d: labels %v %v, expected %v %v", i, a.SourceLabels, a.DestinationLabels, m.SrcLabels, m.DstLabels)
		}
	}
	if len(c.Rules) == 0 {
		return nil
	}
	rules, err := mustLoad(c.Rules, c.Loader)
	if err != nil {
		return err
	}
	for i, l := range c.Msgs {
		o, err := checkAll(&got.Messages[i], &rules)
		if err != nil {
			return err
		}
		m := l.Msg
		m.Type, m.Sec = impliedType(m.Proto), l.Sec
		if l.Nanos != 0 {
			continue
		}
		if !l.Other {
			mod := &model{msg: &m}
			want := make([]int, len(c.Rules))
			for j, r := range c.Rules {
				want[j], _ = mod.rule(r)
			}
			if mod.inexact {
				continue
			}
			if !intsEqual(o.Results, want) {
				return violated("message %d as loaded: results %v, expected %v", i, o.Results, want)
			}
		}
		x.class("applies %v", o.Decision > 0)
		if m.HasDoc {
			x.class("document, applies %v", o.Decision > 0)
		}
		d, err := checkAll(buildMsg(&m, docIntf), &rules)
		if err != nil {
			return err
		}
		if !intsEqual(o.Results, d.Results) || o.Decision != d.Decision {
			return violated("message %d as loaded: results %v, built directly %v", i, o.Results, d.Results)
		}
	}
	return nil
}

// throughJson writes messages in their json form and reads them with the json library.
func throughJson(m me.Messages) (out me.Messages, err error) {
	var text string
	var jerr error
	if err := guarded("json form", func() { text, jerr = m.ToJson() }); err != nil {
		return out, err
	}
	if jerr == nil {
		jerr = json.Unmarshal([]byte(text), &out)
	}
	if jerr != nil {
		return out, violated("json form of messages: %v\n%s", jerr, text)
	}
	return out, nil
}

var badTimes = []string{"", "abc", "2018-07-29", "14:30:00", "2018-07-29T14:30:00", "2018-13-29T14:30:00Z", "2018-07-29T25:30:00Z", "2018-07-29T14:60:00Z",
	"2018-07-29 14:30:00Z", "2018-02-30T14:30:00Z", "2018-07-29T14:30Z", "1532874600", "2018-07-29T14:30:00Zx", "2018-07-29T14:30:00+0000"}

func genLoadMsg(t *rapid.T, i int) loadMsg {
	l := loadMsg{Msg: genMsg(t)}
	m := &l.Msg
	m.ID = fmt.Sprintf("m%d", i)
	if chance(t, 10) {
		m.ID = pick(t, "a b", "é", "1", "#5", "- x", "true", "x: y")
	}
	m.Proto = pick(t, "HTTP", "http", "TCP", "tcp", "kafka", "KAFKA", "", "Http")
	if chance(t, 15) {
		m.UA = pick(t, "Mozilla/5.0 (X11; Linux)", `a"b`, "a: b", "é", "line\nbreak", "# c", "'q'")
	}
	if chance(t, 15) {
		m.Path = pick(t, "/x?y=1&z=2", "/a b", "/é", `/"`, "/a#b", "*")
	}
	if chance(t, 20) {
		m.SrcIP = pick(t, "::ffff:10.0.0.1", "not an ip", "10.0.0.256", "1.2.3", "fe80::1", "010.0.0.1")
		if _, err := netip.ParseAddr(m.SrcIP); err != nil {
			m.SrcIP = pick(t, m.SrcIP, "x")
		}
	}
	m.SrcLabels, m.DstLabels = genPlainLabels(t), genPlainLabels(t)
	m.Size = pick(t, int64(0), 1, 99, 1024, 1<<33, 123456789)
	l.Sec = between(t, 0, 86399)
	if chance(t, 20) {
		l.Sec = pick(t, 0, 1, 59, 60, 3599, 3600, 43200, 86399)
	}
	year := 2000 + between(t, 0, 40)
	if chance(t, 20) {
		year = between(t, 1, 9999)
	}
	day := time.Date(year, time.Month(between(t, 1, 12)), between(t, 1, 28), 0, 0, 0, 0, time.UTC)
	tm := day.Add(time.Duration(l.Sec) * time.Second)
	l.Time = tm.Format("2006-01-02T15:04:05")
	if chance(t, 20) {
		l.Nanos = pick(t, 500000000, 1000000, 1, 999999999, 120000000)
		l.Time += strings.TrimRight(fmt.Sprintf(".%09d", l.Nanos), "0")
	}
	l.Time += pick(t, "Z", "Z", "+00:00")
	l.LabSp = between(t, 0, 11)
	l.Typed = chance(t, 20)
	return l
}

func genPlainLabels(t *rapid.T) map[string]string {
	if chance(t, 15) {
		return nil
	}
	m := map[string]string{}
	for i, n := 0, between(t, 1, 4); i < n; i++ {
		m[pick(t, "app", "tier", "x-y", "k8s.io/name", "Key1", "é")] = pick(t, "a", "b", "abc", "prod", "x1", "a-b", "v1.2", "true", "1", "null", "a/b", "é", "A_b")
	}
	return m
}

func init() {
	rules["C18"] = "non-trivial: at least one message with labels of both sides and a protocol; a document file that exists"
	addProbe("C18", "utc-offset", func() error {
		a := me.MessageAttributes{RequestTime: "2018-07-29T14:30:00-07:00"}
		must(me.AddTimeInfoToMessage(&a))
		if !near(a.RequestTimeHoursFromMidnightUTC, 21.5) {
			return violated("2018-07-29T14:30:00-07:00 is 21:30 UTC, the hours from midnight UTC are %v", a.RequestTimeHoursFromMidnightUTC)
		}
		return nil
	})
	gen := func(t *rapid.T, bad bool) caseMsgs {
		c := caseMsgs{Bad: -1, File: chance(t, 30), Form: styled(t, "yaml", "yaml", "json"), Loader: styled(t, loaders...)}
		o := genOpt{odd: chance(t, 40)}
		doc := genDoc(t, o)
		withDocs := chance(t, 40)
		for i, n := 0, between(t, 1, 4); i < n; i++ {
			l := genLoadMsg(t, i)
			if withDocs && chance(t, 80) {
				l.Msg.HasDoc, l.Msg.Doc = true, doc
				if chance(t, 40) {
					l.Msg.Doc, l.Other = genDoc(t, o), true
				}
			}
			c.Msgs = append(c.Msgs, l)
		}
		if bad {
			c.Bad, c.BadT = between(t, 0, len(c.Msgs)-1), pick(t, badTimes...)
		}
		for i, n := 0, between(t, 0, 3); i < n; i++ {
			r := genFrame(t, i, chance(t, 70))
			if chance(t, 70) {
				r.Tree = genBoolTree(t, between(t, 0, 2), 3, func() *Node { return leaf(genAttrCond(t, nil)) })
			}
			if withDocs && chance(t, 75) {
				r.Tree = genTree(t, scope{doc: doc}, between(t, 0, 3), genOpt{attrs: true})
			}
			c.Rules = append(c.Rules, r)
		}
		return c
	}
	chk := func(c caseMsgs, x *ctx) error {
		for _, l := range c.Msgs {
			x.nt(l.Msg.SrcLabels != nil && l.Msg.DstLabels != nil && l.Msg.Proto != "")
		}
		return checkMessages(c, x)
	}
	addFacet("C18", "messages", 5000, func(t *rapid.T) caseMsgs { return gen(t, false) }, chk)
	addFacet("C18", "invalid-time", 1500, func(t *rapid.T) caseMsgs { return gen(t, true) }, chk)
}

type caseSingle struct {
	Msg   loadMsg `json:"msg"`
	Extra string  `json:"extra,omitempty"` // an attribute that does not exist
	Val   string  `json:"val,omitempty"`
	Style int     `json:"style,omitempty"`
}

// checkSingle: one message alone.
func checkSingle(c caseSingle, x *ctx) error {
	g := c.Msg.generic()
	if c.Extra != "" {
		i := len(c.Msg.Time) % (len(g) + 1)
		g = append(g[:i:i], append(obj{{Key: c.Extra, Value: c.Val}}, g[i:]...)...)
	}
	text := yamlText(g, c.Style)
	var a me.MessageAttributes
	var lerr error
	if err := guarded("loading one message", func() { a, lerr = me.YamlReadMessageAttributes(text) }); err != nil {
		return err
	}
	x.class("unknown attribute %v", c.Extra != "")
	if c.Extra != "" {
		if lerr == nil {
			return violated("a message with the unknown attribute %q is accepted\n%s", c.Extra, text)
		}
		return nil
	}
	if lerr != nil {
		return violated("a valid message is rejected: %v\n%s", lerr, text)
	}
	if err := sameFields("the message", a, c.Msg); err != nil {
		return err
	}
	// the rest is added by the caller
	list := me.Messages{Messages: []me.MessageAttributes{{}, a, {}}}
	var terr error
	if err := guarded("adding time and addresses", func() {
		terr = me.AddTimeInfoToMessage(&list.Messages[1])
		me.AddNetIpToMessages(&list)
	}); err != nil {
		return err
	}
	if terr != nil {
		return violated("the valid time %q is rejected: %v", c.Msg.Time, terr)
	}
	if err := sameDerived("the message", list.Messages[1], c.Msg); err != nil {
		return err
	}
	var js string
	var jerr error
	if err := guarded("json form", func() { js, jerr = list.Messages[1].ToJson() }); err != nil {
		return err
	}
	var again me.MessageAttributes
	if jerr == nil {
		jerr = json.Unmarshal([]byte(js), &again)
	}
	if jerr != nil {
		return violated("json form of a message: %v\n%s", jerr, js)
	}
	if err := sameFields("the json form", again, c.Msg); err != nil {
		return err
	}
	return sameDerived("the json form", again, c.Msg)
}

func init() {
	addFacet("C18", "single", 3000, func(t *rapid.T) caseSingle {
		c := caseSingle{Msg: genLoadMsg(t, 0)}
		if chance(t, 50) {
			c.Style = between(t, 1, 99999)
		}
		if chance(t, 40) {
			c.Msg.Msg.HasDoc, c.Msg.Msg.Doc = true, genDoc(t, genOpt{odd: chance(t, 40)})
		}
		if chance(t, 30) {
			c.Extra = pick(t, "sender_name", "Sender_ip", "request-path", "foo", "labels", "SourceIp", "messageid")
			c.Val = pick(t, "x", "1", "", "a b")
		}
		return c
	}, func(c caseSingle, x *ctx) error {
		x.nt(c.Msg.Msg.SrcLabels != nil && c.Msg.Msg.Proto != "")
		return checkSingle(c, x)
	})
}

type caseDocFile struct {
	Doc     any    `json:"doc"`
	Style   int    `json:"style"`
	Pad     int    `json:"pad"` // white space up to this size
	Name    string `json:"name"`
	Missing bool   `json:"missing,omitempty"`
}

func checkDocFile(c caseDocFile, x *ctx) error {
	want := renderDoc(c.Doc, c.Style)
	for len(want) < c.Pad {
		want = append(want, ' ')
	}
	name := filepath.Join(scratch(), c.Name)
	if !c.Missing {
		if err := os.WriteFile(name, want, 0o600); err != nil {
			return err
		}
		defer os.Remove(name)
	}
	x.class("missing %v", c.Missing)
	x.class("larger than 4096 bytes %v", len(want) > 4096)
	var got []byte
	var rerr error
	if err := guarded("reading a document file", func() { got, rerr = me.ReadBinaryFile(name) }); err != nil {
		return err
	}
	if c.Missing {
		if rerr == nil {
			return violated("a file that does not exist is read")
		}
		return nil
	}
	if rerr != nil {
		return violated("a document of %d bytes cannot be read: %v", len(want), rerr)
	}
	if !bytes.Equal(got, want) {
		return violated("a document of %d bytes is read as %d other bytes", len(want), len(got))
	}
	return nil
}

func init() {
	addFacet("C18", "document-file", 500, func(t *rapid.T) caseDocFile {
		c := caseDocFile{Doc: genDoc(t, genOpt{odd: chance(t, 40)}), Style: between(t, 0, 15), Name: pick(t, "doc.json", "doc", "a b.json", "é.json")}
		if chance(t, 50) {
			c.Pad = pick(t, 4095, 4096, 4097, 8192, 5000, 70000, 200000) + between(t, 0, 3)
		}
		c.Missing = chance(t, 10)
		return c
	}, func(c caseDocFile, x *ctx) error {
		x.nt(!c.Missing)
		return checkDocFile(c, x)
	})
}

// ---------------------------------------------------------------- C19

type caseLoad struct {
	Rules []RuleAST `json:"rules"`
	How   string    `json:"how"`
	Defs  *Defs     `json:"defs,omitempty"`
	Bad   int       `json:"bad"` // index of the rule that is malformed, -1 none
	Break string    `json:"break,omitempty"`
	Doc   any       `json:"doc"`
	Msg   Msg       `json:"msg"`
	File  string    `json:"file,omitempty"`
}

var loadHows = []string{"yaml", "json", "json-as-yaml", "yaml-file", "json-file", "yaml-defs", "yaml-file-defs", "json-generic"}

func loadHow(g obj, how, file string, missing bool, ed me.PredefinedStringsAndLists) (rules me.Rules, err error) {
	text := textOf(g, how)
	how = kindOfHow(how)
	name := filepath.Join(scratch(), file)
	if strings.Contains(how, "file") {
		real := strings.ReplaceAll(name, `\`, "/")
		must(os.MkdirAll(filepath.Dir(real), 0o755))
		must(os.WriteFile(real, []byte(text), 0o644))
	}
	if missing {
		name += ".missing"
	}
	switch how {
	case "yaml", "json-as-yaml":
		return me.YamlReadRulesFromString(text)
	case "json":
		err = json.Unmarshal([]byte(text), &rules)
	case "json-generic":
		var gen any
		must(json.Unmarshal([]byte(text), &gen))
		b, e := json.MarshalIndent(gen, "", "\t")
		must(e)
		err = json.Unmarshal(b, &rules)
	case "yaml-file", "json-file":
		return me.YamlReadRulesFromFile(name)
	case "yaml-defs":
		return me.YamlReadRulesFromStringWithPredefinedStrings(text, ed)
	case "yaml-file-defs":
		return me.YamlReadRulesFromFileWithPredefinedStrings(name, ed)
	default:
		panic(how)
	}
	return rules, err
}

// breakages of one rule document; each makes the rule malformed.
var breakages = map[string]func(o obj) obj{
	"method": func(o obj) obj {
		return setConds(o, obj{{Key: "attribute", Value: "domain"}, {Key: "method", Value: "XX"}, {Key: "value", Value: "a"}})
	},
	"attribute": func(o obj) obj {
		return setConds(o, obj{{Key: "attribute", Value: "nosuch"}, {Key: "method", Value: "EQ"}, {Key: "value", Value: "a"}})
	},
	"regex": func(o obj) obj {
		return setConds(o, obj{{Key: "attribute", Value: "domain"}, {Key: "method", Value: "RE"}, {Key: "value", Value: "("}})
	},
	"ordering": func(o obj) obj {
		return setConds(o, obj{{Key: "attribute", Value: "payloadSize"}, {Key: "method", Value: "GT"}, {Key: "value", Value: "a"}})
	},
	"keyword": func(o obj) obj { return setConds(o, obj{{Key: "XOR", Value: []any{}}}) },
	"two-keywords": func(o obj) obj {
		return setConds(o, obj{{Key: "AND", Value: []any{okCond()}}, {Key: "OR", Value: []any{okCond()}}})
	},
	"no-parent": func(o obj) obj {
		return setConds(o, obj{{Key: "ANY", Value: obj{{Key: "condition", Value: okCond()}}}})
	},
	// the following only for files
	"twice": func(o obj) obj { return append(append(obj{}, o...), kv{Key: "decision", Value: "allow"}) },
	"twice-in-sender": func(o obj) obj {
		return setKey(o, "sender", obj{{Key: "senderName", Value: "a"}, {Key: "senderType", Value: "*"}, {Key: "senderName", Value: "b"}})
	},
	"twice-in-conditions": func(o obj) obj {
		return setConds(o, append(okCond(), kv{Key: "method", Value: "NEQ"}))
	},
	"missing-file": func(o obj) obj { return o },
	// and these for all
	"conds-text":    func(o obj) obj { return setConds(o, "abc") },
	"sender-text":   func(o obj) obj { return setKey(o, "sender", "abc") },
	"sender-list":   func(o obj) obj { return setKey(o, "sender", []any{"abc"}) },
	"resource-text": func(o obj) obj { return setKey(o, "resource", "abc") },
	"meta-text":     func(o obj) obj { return setKey(o, "metadata", "abc") },
	"decision-map":  func(o obj) obj { return setKey(o, "decision", obj{{Key: "a", Value: "b"}}) },
}

func okCond() obj {
	return obj{{Key: "attribute", Value: "domain"}, {Key: "method", Value: "EQ"}, {Key: "value", Value: "a"}}
}

func setKey(o obj, k string, v any) obj {
	out := obj{}
	done := false
	for _, e := range o {
		if e.Key == k {
			e.Value, done = v, true
		}
		out = append(out, e)
	}
	if !done {
		out = append(out, kv{Key: k, Value: v})
	}
	return out
}

func setConds(o obj, v any) obj { return setKey(o, "conditions", v) }

func checkLoad(c caseLoad, x *ctx) error {
	x.class("%s", kindOfHow(c.How))
	list := []any{}
	for i, r := range c.Rules {
		g := r.generic()
		if i == c.Bad {
			g = breakages[c.Break](g)
		}
		list = append(list, g)
	}
	doc := obj{{Key: "rules", Value: list}}
	var ed me.PredefinedStringsAndLists
	if c.Defs != nil {
		var err error
		if ed, err = engineDefs(*c.Defs, false, ""); err != nil {
			return violated("valid definitions are rejected: %v", err)
		}
	}
	var got me.Rules
	var lerr error
	if err := guarded("loading", func() { got, lerr = loadHow(doc, c.How, c.File, c.Break == "missing-file", ed) }); err != nil {
		return err
	}
	if c.Bad >= 0 {
		x.class("broken: %s", c.Break)
		if lerr == nil {
			return violated("rule %d is malformed (%s) and the text is accepted", c.Bad, c.Break)
		}
		if strings.HasPrefix(c.How, "yaml") && len(got.Rules) != 0 {
			return violated("the text is rejected but %d rules are returned", len(got.Rules))
		}
		return nil
	}
	if lerr != nil {
		return violated("valid rules are rejected (%s): %v\n%s", c.How, lerr, toYAML(doc))
	}
	if len(got.Rules) != len(c.Rules) {
		return violated("%d rules written, %d loaded", len(c.Rules), len(got.Rules))
	}
	for i, r := range c.Rules {
		a := got.Rules[i]
		for _, f := range [][3]string{
			{"id", a.RuleID, r.ID}, {"sender name", a.Sender.SenderName, r.Sender.text()}, {"sender type", a.Sender.SenderType, r.Sender.Type},
			{"receiver name", a.Receiver.ReceiverName, r.Receiver.text()}, {"receiver type", a.Receiver.ReceiverType, r.Receiver.Type},
			{"protocol", a.Protocol, r.Proto}, {"resource type", a.Resource.ResourceType, r.ResType}, {"resource name", a.Resource.ResourceName, joinSep(r.ResNames, r.ResSep)},
			{"operation", a.Operation, joinSep(r.Ops, r.OpSep)}, {"decision", a.Decision, r.Decision},
		} {
			if f[1] != f[2] {
				return violated("rule %d (%s): %s is %q, expected %q", i, c.How, f[0], f[1], f[2])
			}
		}
		if !sameMeta(a.Metadata, r.Meta) {
			return violated("rule %d (%s): metadata %v, expected %v", i, c.How, a.Metadata, r.Meta)
		}
		root, ok := rootOf(a)
		if !ok {
			continue
		}
		_, has := loadedNode(root)
		if has != (r.Tree != nil) {
			return violated("rule %d (%s): conditions present %v, expected %v", i, c.How, has, r.Tree != nil)
		}
		if r.Tree != nil {
			if err := sameTree(root, r.Tree); err != nil {
				return violated("rule %d (%s): %v\n%s", i, c.How, err, toYAML(r.generic()))
			}
		}
	}
	if c.Defs == nil { // the loaders agree on what the rules mean
		o, err := checkAll(buildMsg(&c.Msg, docRaw), &got)
		if err != nil {
			return err
		}
		m := &model{msg: &c.Msg}
		want := make([]int, len(c.Rules))
		for i, r := range c.Rules {
			want[i], _ = m.rule(r)
		}
		if !m.inexact && !intsEqual(o.Results, want) {
			return violated("%s: results %v, expected %v", c.How, o.Results, want)
		}
	}
	return nil
}

// sameTree compares a loaded tree with what was written, node by node.
func sameTree(got interface{}, n *Node) error {
	g, ok := loadedNode(got)
	if !ok {
		return fmt.Errorf("%s loaded as nothing", n.Op)
	}
	kind := map[string]string{"And": opAnd, "Or": opOr, "Not": opNot, "Any": opAny, "All": opAll, "Condition": opCond}[g.kind]
	if kind == "" {
		return nil
	}
	if kind != n.Op {
		return fmt.Errorf("%s loaded as %s", n.Op, kind)
	}
	ret := n.Ret
	if n.Op == opCond {
		ret = n.Cond.Ret
		for _, f := range []struct{ name, want string }{{"Attribute", n.Cond.attribute()}, {"Method", n.Cond.Method}, {"Value", valText(n.Cond.Val)}} {
			if v, ok := g.text(f.name); ok && v != f.want {
				return fmt.Errorf("%s of a condition %q, expected %q", f.name, v, f.want)
			}
		}
	}
	if n.Op == opCond || n.Op == opAny || n.Op == opAll {
		want := map[string]string{}
		for k, p := range ret {
			want[k] = p.text()
		}
		if v, ok := g.texts("ReturnValueJsonpathOriginal"); ok && !sameMeta(v, want) {
			return fmt.Errorf("return values %v, expected %v", v, want)
		}
	}
	if n.Op == opCond {
		return nil
	}
	if n.Op == opAny || n.Op == opAll {
		var ps []string
		for i, p := range n.Parents {
			t := p.text()
			if i > 0 && n.Sp&4 != 0 {
				t = strings.TrimPrefix(t, "jsonpath:")
			}
			ps = append(ps, t)
		}
		if v, ok := g.text("ParentJsonpathAttributeOriginal"); ok && v != strings.Join(ps, ",") {
			return fmt.Errorf("parent %q, expected %q", v, strings.Join(ps, ","))
		}
	}
	list, ok := g.kids()
	if !ok {
		return nil
	}
	if len(list) != len(n.Kids) {
		return fmt.Errorf("%s has %d children, expected %d", n.Op, len(list), len(n.Kids))
	}
	for i := range list {
		if err := sameTree(list[i], n.Kids[i]); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	rules["C19"] = "non-trivial: at least two rules, one of them with a conditions tree"
	gen := func(t *rapid.T, bad bool) caseLoad {
		o := genOpt{odd: true, attrs: true, ret: chance(t, 30)}
		c := caseLoad{How: styled(t, styled(t, loadHows...)), Bad: -1, File: pick(t, "rules.yaml", "r-1.json", "rules with space.yaml", "é.yaml", "noext", `sub\rules.yaml`, `sub\a b\r.json`)}
		doc := genDoc(t, o)
		c.Msg = withDoc(t, genMsg(t), doc)
		for i, n := 0, between(t, 1, 5); i < n; i++ {
			r := genFrame(t, i, chance(t, 70))
			if chance(t, 15) {
				r.ID = pick(t, "a b", "é", "1", "#5", "true", "x: y", `q"t`, "")
			}
			if chance(t, 30) {
				r.Meta = map[string]string{pick(t, "description", "note", "a b"): genString(t, o) + genString(t, o)}
			}
			if chance(t, 75) {
				r.Tree = genTree(t, scope{doc: doc}, between(t, 0, 3), o)
				r.TreeSp = between(t, 0, 2)
			}
			c.Rules = append(c.Rules, r)
		}
		if strings.HasSuffix(kindOfHow(c.How), "defs") {
			d := genDefs(t, nil)
			c.Defs = &d
			for i := range c.Rules {
				if chance(t, 40) {
					ks := sortedKeys(d.Strings)
					c.Rules[i].Sender = Party{Type: "workload", Names: []string{"#" + pick(t, ks...)}}
				}
			}
		}
		if bad {
			c.Bad = between(t, 0, len(c.Rules)-1)
			var ks []string
			for _, k := range sortedKeys(breakages) {
				if strings.Contains(c.How, "file") || !strings.HasPrefix(k, "twice") && k != "missing-file" {
					ks = append(ks, k)
				}
			}
			c.Break = pick(t, ks...)
		}
		return c
	}
	chk := func(c caseLoad, x *ctx) error {
		trees := 0
		for _, r := range c.Rules {
			if r.Tree != nil {
				trees++
			}
		}
		x.nt(len(c.Rules) >= 2 && trees > 0)
		return checkLoad(c, x)
	}
	addFacet("C19", "rules", 5000, func(t *rapid.T) caseLoad { return gen(t, false) }, chk)
	addFacet("C19", "one-malformed", 2500, func(t *rapid.T) caseLoad { return gen(t, true) }, chk)
}
