package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
)

// The same content can be written as YAML in many ways. yamlText writes it in a way
// that depends on the style number only: block and flow collections, plain, quoted and
// literal strings, comments, blank lines, anchors, document markers, line ends.

type yamlWriter struct {
	r       uint64
	comment bool
	anchors map[string]string
	open    map[string]bool
}

func (w *yamlWriter) below(n int) int {
	w.r ^= w.r << 13
	w.r ^= w.r >> 7
	w.r ^= w.r << 17
	return int(w.r>>11) % n
}

var plainYAML = regexp.MustCompile(`^[A-Za-z/][A-Za-z0-9_./-]*(:[A-Za-z0-9_./-]+)*$`)
var wordsYAML = regexp.MustCompile(`^(?i)(y|n|yes|no|on|off|true|false|null|~|.*inf|.*nan|0.*|.*e[0-9].*)$`)

func printable(s string, also string) bool {
	for _, r := range s {
		if !unicode.IsPrint(r) && !strings.ContainsRune(also, r) || r == 0xfeff {
			return false
		}
	}
	return true
}

func (w *yamlWriter) scalar(v any, flow bool, ind int) string {
	s, ok := v.(string)
	if !ok {
		b, err := json.Marshal(v)
		must(err)
		return string(b)
	}
	switch w.below(5) {
	case 0, 1:
		if plainYAML.MatchString(s) && !wordsYAML.MatchString(s) {
			return s
		}
	case 2:
		if printable(s, "\t") {
			return "'" + strings.ReplaceAll(s, "'", "''") + "'"
		}
	case 3:
		if !flow && s != "" && printable(s, "\t\n") && !strings.HasSuffix(s, "\n") && strings.TrimLeft(s, " \t\n") == s && !strings.Contains(s, "\n\n") {
			pad := strings.Repeat(" ", ind+2)
			return "|-\n" + pad + strings.ReplaceAll(s, "\n", "\n"+pad)
		}
	}
	b, err := json.Marshal(s)
	must(err)
	q := string(b)
	if w.below(2) == 0 {
		q = strings.ReplaceAll(q, `\t`, "\t")
	}
	return q
}

func (w *yamlWriter) key(k any) string {
	s := fmt.Sprint(k)
	if plainYAML.MatchString(s) && !wordsYAML.MatchString(s) {
		switch w.below(8) {
		case 0:
			return `"` + s + `"`
		case 1:
			return "'" + s + "'"
		}
		return s
	}
	return strconv.Quote(s)
}

func (w *yamlWriter) end() string {
	if w.comment {
		switch w.below(7) {
		case 0:
			return " # ok: {a: [b\n"
		case 1:
			return "  #\n"
		case 2:
			return "\n\n"
		case 3:
			return "\n# - rule: 'x\n"
		}
	}
	return "\n"
}

// anchor gives "*a" for something written before, or "&a " to mark it.
func (w *yamlWriter) anchor(v any) (string, bool) {
	id := toJSON(v)
	if len(id) < 12 {
		return "", false
	}
	if a, ok := w.anchors[id]; ok && !w.open[a] {
		if w.below(2) == 0 {
			return "*" + a, true
		}
		return "", false
	}
	if _, ok := w.anchors[id]; !ok && w.below(6) == 0 {
		a := fmt.Sprintf("a%d", len(w.anchors))
		w.anchors[id] = a
		return "&" + a + " ", false
	}
	return "", false
}

func (w *yamlWriter) flow(v any) string {
	sep := []string{", ", ",", " , "}[w.below(3)]
	if sep == "," {
		sep = ", "
	}
	switch x := v.(type) {
	case obj:
		var l []string
		for _, e := range x {
			l = append(l, w.key(e.Key)+": "+w.flow(e.Value))
		}
		return "{" + strings.Join(l, sep) + "}"
	case []any:
		var l []string
		for _, e := range x {
			l = append(l, w.flow(e))
		}
		return "[" + strings.Join(l, sep) + "]"
	}
	return w.scalar(v, true, 0)
}

// node writes what follows "key:" or "-" up to the end of the line.
func (w *yamlWriter) node(v any, ind int, inList bool) string {
	mark := ""
	switch v.(type) {
	case obj, []any:
		a, again := w.anchor(v)
		if again {
			return " " + a + w.end()
		}
		mark = a
		if mark != "" {
			name := strings.TrimSpace(mark[1:])
			w.open[name] = true
			defer delete(w.open, name)
		}
	}
	pad := strings.Repeat(" ", ind)
	switch x := v.(type) {
	case obj:
		if len(x) == 0 || w.below(6) == 0 {
			return " " + mark + w.flow(x) + w.end()
		}
		var b strings.Builder
		first := ""
		if inList && mark == "" && w.below(4) > 0 {
			first = " " // "- key: value"
		} else {
			b.WriteString(" " + strings.TrimSpace(mark) + w.end())
		}
		for i, e := range x {
			p := pad
			if i == 0 && first != "" {
				p = first + strings.Repeat(" ", ind-(ind/2*2))
			}
			b.WriteString(p + w.key(e.Key) + ":" + w.node(e.Value, ind+2, false))
		}
		return b.String()
	case []any:
		if len(x) == 0 || w.below(8) == 0 {
			return " " + mark + w.flow(x) + w.end()
		}
		var b strings.Builder
		b.WriteString(" " + strings.TrimSpace(mark) + w.end())
		if !inList && w.below(2) == 0 && ind >= 2 {
			ind -= 2
			pad = pad[2:]
		}
		for _, e := range x {
			b.WriteString(pad + "-" + w.node(e, ind+2, true))
		}
		return b.String()
	}
	s := w.scalar(v, false, ind)
	if strings.HasPrefix(s, "|") {
		return " " + s + "\n"
	}
	return " " + s + w.end()
}

func yamlText(v obj, style int) string {
	plain := toYAML(v)
	if style == 0 {
		return plain
	}
	w := &yamlWriter{r: uint64(style)*2654435761 + 88172645463325252, anchors: map[string]string{}, open: map[string]bool{}}
	w.comment = w.below(2) == 0
	var b strings.Builder
	switch w.below(6) {
	case 0:
		b.WriteString("---\n")
	case 1:
		b.WriteString("# rules\n\n---\n")
	case 2:
		b.WriteString("%YAML 1.1\n---\n")
	}
	for _, e := range v {
		b.WriteString(w.key(e.Key) + ":" + w.node(e.Value, 2, false))
	}
	if w.below(8) == 0 {
		b.WriteString("...\n")
	}
	s := b.String()
	switch w.below(8) {
	case 0:
		s = strings.ReplaceAll(s, "\n", "\r\n")
	case 1:
		s = strings.TrimRight(s, "\n")
	}
	// it has to be the same content
	var x, y any
	if yaml.Unmarshal([]byte(s), &x) != nil || yaml.Unmarshal([]byte(plain), &y) != nil || !reflect.DeepEqual(x, y) {
		return plain
	}
	return s
}

// textOf writes the rules for a loader; "yaml~7" is YAML in style 7.
func textOf(g obj, how string) string {
	kind, sty, _ := strings.Cut(how, "~")
	style, _ := strconv.Atoi(sty)
	if strings.HasPrefix(kind, "json") {
		s := toJSON(g)
		if style != 0 { // white space, and the order of keys stays
			var b strings.Builder
			in, esc := false, false
			for _, r := range s {
				b.WriteRune(r)
				switch {
				case esc:
					esc = false
				case in && r == '\\':
					esc = true
				case r == '"':
					in = !in
				case !in && (r == ',' || r == '{' || r == '['):
					b.WriteString([]string{"\n  ", " ", "\n", "\n\n   "}[style%4])
				case !in && r == ':':
					b.WriteString(" ")
				}
			}
			s = b.String()
		}
		return s
	}
	return yamlText(g, style)
}

func styled(t *rapid.T, list ...string) string {
	how := pick(t, list...)
	if chance(t, 40) && !strings.Contains(how, "~") && how != "bson" {
		how = fmt.Sprintf("%s~%d", how, between(t, 1, 99999))
	}
	return how
}

func kindOfHow(how string) string {
	k, _, _ := strings.Cut(how, "~")
	return k
}
