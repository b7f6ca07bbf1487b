package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// chance is true in pct of 100 cases. A range of integers would not do: those are
// drawn with a bias to small numbers.
func chance(t *rapid.T, pct int) bool {
	bound := (100 - pct) * 128 / 100
	for bit := 64; bit > 0; bit /= 2 {
		one := coin.Draw(t, "chance")
		if one != (bound&bit != 0) {
			return one
		}
	}
	return true
}

var coin = rapid.Bool()

func pick[T any](t *rapid.T, list ...T) T { return rapid.SampledFrom(list).Draw(t, "pick") }

// few is a small number, now and then a large one.
func few(t *rapid.T, a, b int) int {
	if chance(t, 3) {
		return between(t, b+1, b+20)
	}
	return between(t, a, b)
}

// elements draws the elements of a list; in a long one all but one are fillers that
// match nothing.
func elements(t *rapid.T, filler string, one func() string) []string {
	n := few(t, 1, 3)
	var l []string
	if n <= 3 {
		for i := 0; i < n; i++ {
			l = append(l, one())
		}
		return l
	}
	at := between(t, 0, n-1)
	for i := 0; i < n; i++ {
		if i == at {
			l = append(l, one())
		} else {
			l = append(l, fmt.Sprintf(filler, i))
		}
	}
	return l
}

func between(t *rapid.T, a, b int) int { return rapid.IntRange(a, b).Draw(t, "int") }

// ---------------------------------------------------------------- documents

// The first letter of a key fixes the kind of value it holds, so that paths, deep
// scans and conditions can be generated to make sense:
//
//	s string, n number, u number with a unit as a string, b boolean, x any scalar,
//	o object, l array of objects, t array of strings, w array of numbers,
//	m object of strings, d object of objects, e something empty,
//	v0 v2 strings in lists of lists, v1 objects in lists of lists, y array of anything
var keyNames = map[byte][]string{
	's': {"s0", "s1", "s-2"}, 'n': {"n0", "n1"}, 'u': {"u0", "u1"}, 'b': {"b0"}, 'x': {"x0", "x1"},
	'o': {"o0", "o1"}, 'l': {"l0", "l1"}, 't': {"t0"}, 'w': {"w0"}, 'm': {"m0", "m1"}, 'd': {"d0"}, 'e': {"e0"},
	'v': {"v0", "v1", "v2"}, 'y': {"y0"},
}

var labelKeys = []string{"app", "tier", "x-y", "a.b/c", "lbl", "Foo", "é %d", "k:😀"}

var plainStrings = []string{"a", "b", "ab", "abc", "nginx", "prod", "x1", "A", "a.b", "a-b", "a b", "dev", "k8s.gcr.io/x:v1", "true", "1x", "m", "5Q", "Ki", "nan", "Infinity"}
var oddStrings = []string{`q"t`, `back\slash`, "é", "日本", "a,b", "[x]", "{y}", "}", "{", "],[", "[[z]]", `["v"]`, `"`, `""`, "'", "null", "tab\tx", "line\nx", "<h>&", "a/b", "$x", "^", "%d%s", "a*c", "a?c", "(", " pad ", " a", "b ", "\ta", "a\t", "  ", "a  b", "\u00a0", "a\u2028b", "[]", "{}", `A`}
var keywordStrings = []string{"receiverLabel[app]", "receiverLabel", "$receiver.namespace", "$receiver", "$receiver.x", "senderLabel[app]", "$sender.cluster", "jsonpath:$.a", "$RELATIVE", "$VALUE", "$KEY", "$.a", "domain", "TRUE", "condition", "AND"}
var numbers = []float64{0, 1, 2, 3, 5, 10, 100, 0.5, 0.1, 1.5, -1, -2.5, 1000, 1024, 0.05, 0.001, 1000000, 1048576, 123456789, 1500000, 0.25, 2147483648}
var numberTexts = []string{"0", "1", "2", "3", "5", "10", "100", "0.5", "0.1", "1.5", "-1", "-2.5", "1000", "1024", "0.05", "0.001", "1000000", "1048576", "123456789", "1e3", "1.5e6", "+2", ".5", "5.", "1e-3", "0.25", "00", "1e-2"}
var unitNames = []string{"%", "Ki", "Mi", "Gi", "Ti", "K", "M", "G", "T", "m", "Pi", "Ei", "P", "E"}

type genOpt struct {
	odd      bool // strings with special characters
	noDeep   bool
	noMulti  bool
	noKV     bool
	noRet    bool
	ret      bool // ask for return values often
	noQuant  bool
	attrs    bool // conditions on message attributes too
	maxDepth int
	noEmpty  bool
}

func genString(t *rapid.T, o genOpt) string {
	if o.odd && chance(t, 30) {
		if chance(t, 40) {
			return pick(t, oddStrings...) + pick(t, plainStrings...)
		}
		return pick(t, oddStrings...)
	}
	return pick(t, plainStrings...)
}

func genUnitString(t *rapid.T) string {
	m := pick(t, "1", "2", "10", "100", "500", "0.5", "1.5", "1000", "1024", "0.1")
	if chance(t, 20) {
		return m
	}
	return m + pick(t, unitNames...)
}

func genScalar(t *rapid.T, o genOpt) any {
	switch between(t, 0, 4) {
	case 0, 1:
		return genString(t, o)
	case 2:
		return pick(t, numbers...)
	case 3:
		return genUnitString(t)
	}
	return chance(t, 50)
}

func genValue(t *rapid.T, kind byte, depth int, o genOpt) any {
	switch kind {
	case 's':
		return genString(t, o)
	case 'n':
		return pick(t, numbers...)
	case 'u':
		return genUnitString(t)
	case 'b':
		return chance(t, 50)
	case 'x':
		return genScalar(t, o)
	case 'o':
		return genObject(t, depth-1, o)
	case 'l':
		l := []any{}
		for i, n := 0, few(t, 0, 3); i < n; i++ {
			l = append(l, genObject(t, depth-1, o))
		}
		return l
	case 't':
		l := []any{}
		for i, n := 0, few(t, 0, 3); i < n; i++ {
			l = append(l, genString(t, o))
		}
		return l
	case 'w':
		l := []any{}
		for i, n := 0, few(t, 0, 3); i < n; i++ {
			l = append(l, pick(t, numbers...))
		}
		return l
	case 'm':
		m := map[string]any{}
		for i, n := 0, between(t, 0, 3); i < n; i++ {
			m[pick(t, labelKeys...)] = genString(t, o)
		}
		return m
	case 'd':
		m := map[string]any{}
		for i, n := 0, between(t, 0, 3); i < n; i++ {
			m[pick(t, labelKeys...)] = genObject(t, depth-1, o)
		}
		return m
	case 'e':
		if o.noEmpty {
			return map[string]any{"s0": "a"}
		}
		return pick(t, any(""), any([]any{}), any(map[string]any{}), any(nil))
	case 'y':
		l := []any{}
		for i, n := 0, between(t, 0, 4); i < n; i++ {
			k := "sslltwooxne"[between(t, 0, 10)]
			l = append(l, genValue(t, k, min(depth, 1), o))
		}
		return notHollow(l)
	}
	panic("kind " + string(kind))
}

func genObject(t *rapid.T, depth int, o genOpt) map[string]any {
	m := map[string]any{}
	kinds := "snuxbsx"
	if depth > 0 {
		kinds = "lllooosnuxbtwmmddevy"
		if o.noEmpty {
			kinds = "lllooosnuxbtwmmdde"
		}
	}
	n := between(t, 0, 4)
	if depth > 0 {
		n = between(t, 1, 6)
	}
	for i := 0; i < n; i++ {
		k := kinds[between(t, 0, len(kinds)-1)]
		name := pick(t, keyNames[k]...)
		if k == 'v' {
			m[name] = genNested(t, name, map[string]int{"v0": 2, "v1": 3, "v2": 3}[name], depth, o)
			continue
		}
		m[name] = genValue(t, k, depth, o)
	}
	return m
}

// genNested: lists in lists, all of the same depth.
func genNested(t *rapid.T, name string, levels, depth int, o genOpt) any {
	if levels == 0 {
		if name != "v1" {
			return genString(t, o)
		}
		return genObject(t, 0, o)
	}
	l := []any{}
	for i, n := 0, between(t, 0, 3); i < n; i++ {
		l = append(l, genNested(t, name, levels-1, depth, o))
	}
	return notHollow(l)
}

// notHollow: whether a list of nothing but empty lists and strings exists is not specified.
func notHollow(l []any) []any {
	for _, e := range l {
		if x, ok := e.([]any); e != "" && (!ok || len(x) > 0) {
			return l
		}
	}
	return []any{}
}

func genDoc(t *rapid.T, o genOpt) any { return genObject(t, between(t, 1, 3), o) }

// ---------------------------------------------------------------- paths

func keyStep(t *rapid.T, k string, parent bool) Step {
	plain := regexp.MustCompile(`^[A-Za-z][A-Za-z0-9]*$`).MatchString(k)
	q := 0
	switch {
	case !plain && parent:
		q = 1
	case !plain:
		q = pick(t, 1, 2, 4, 6)
	case chance(t, 15):
		if parent {
			q = 1
		} else {
			q = pick(t, 1, 2, 3, 4, 5, 6)
		}
	}
	return Step{K: k, Q: q}
}

// fixFirst: a path has to go on with a dot after its root.
func fixFirst(steps []Step, q int) {
	if len(steps) > 0 && steps[0].I == nil && !steps[0].All && !steps[0].Deep && (steps[0].Q == 1 || steps[0].Q == 2) {
		steps[0].Q = q
	}
}

func randomKey(t *rapid.T, kinds string) string {
	return pick(t, keyNames[kinds[between(t, 0, len(kinds)-1)]]...)
}

// kindOf gives the kind letter of a key; keys of label maps have none.
func kindOf(k string, in byte) byte {
	switch in {
	case 'm':
		return 's'
	case 'd':
		return 'o'
	}
	return k[0]
}

// genLeafSteps walks the value and returns steps together with the kind of what is
// at their end ('?' composite of any sort).
func genLeafSteps(t *rapid.T, v any, kind byte, depth int) ([]Step, byte) {
	var steps []Step
	for {
		switch x := v.(type) {
		case map[string]any:
			if len(steps) > 0 && chance(t, 12) || depth == 0 {
				return steps, kind
			}
			depth--
			var k string
			if len(x) > 0 && chance(t, 85) {
				keys := sortedKeys(x)
				k = keys[between(t, 0, len(keys)-1)]
			} else if kind == 'm' || kind == 'd' {
				k = pick(t, labelKeys...)
			} else {
				k = randomKey(t, "snuxbolmte")
			}
			steps = append(steps, keyStep(t, k, false))
			kind = kindOf(k, kind)
			v = x[k]
		case []any:
			if chance(t, 25) || depth == 0 {
				return steps, kind
			}
			depth--
			i := between(t, 0, len(x))
			steps = append(steps, Step{I: &i})
			kind = map[byte]byte{'l': 'o', 't': 's', 'w': 'n', 'e': 'e'}[kind] // in nested or mixed lists: anything
			if i < len(x) {
				v = x[i]
			} else {
				v = nil
			}
		default:
			// a scalar or nothing; sometimes go on below it, which leads nowhere
			if chance(t, 4) {
				k := randomKey(t, "sn")
				return append(steps, keyStep(t, k, false)), 's'
			}
			return steps, kind
		}
	}
}

// genParent draws a quantifier's parent path starting at value v of the given kind
// (the root or the current element), and returns the kind of the elements.
func genParent(t *rapid.T, root string, v any, kind byte, o genOpt) (p Path, elems byte) {
	p = Path{Root: root}
	defer func() { fixFirst(p.Steps, 0) }()
	obj, _ := v.(map[string]any)
	elemKind := func(k byte) byte {
		return map[byte]byte{'l': 'o', 't': 's', 'w': 'n', 'y': 'y'}[k]
	}
	if !o.noKV && root == rootRel && len(obj) > 0 && chance(t, 12) {
		p.Root = rootStar
		return p, 'E'
	}
	if !o.noDeep && root == rootAbs && chance(t, 18) {
		kinds := "llltwoov"
		if o.noEmpty {
			kinds = "llltwoo"
		}
		k := randomKey(t, kinds)
		p.Steps = append(p.Steps, Step{K: k, Deep: true})
		if k[0] == 'v' {
			return p, map[string]byte{"v0": 's', "v1": 'o', "v2": 's'}[k]
		}
		if k[0] == 'o' {
			if chance(t, 50) {
				k2 := randomKey(t, "ll")
				p.Steps = append(p.Steps, keyStep(t, k2, true))
				return p, elemKind(k2[0])
			}
			return p, 'o'
		}
		if chance(t, 60) {
			p.Steps = append(p.Steps, Step{All: true, Q: pick(t, 0, 0, 1)})
		}
		return p, elemKind(k[0])
	}
	// walk down objects to an array or an object
	wilds := 0
	for i := 0; i < 4; i++ {
		var k string
		cands := []string{}
		for _, c := range sortedKeys(obj) {
			ck := kindOf(c, kind)
			if strings.IndexByte("lotwmdvy", ck) >= 0 && (!o.noKV || ck != 'm' && ck != 'd') {
				cands = append(cands, c)
			}
		}
		kinds := "lllotwmd"
		if o.noKV {
			kinds = "lllotw"
		}
		if len(cands) > 0 && chance(t, 90) {
			k = cands[between(t, 0, len(cands)-1)]
		} else if kind == 'd' {
			k = pick(t, labelKeys...)
		} else {
			k = randomKey(t, kinds)
		}
		p.Steps = append(p.Steps, keyStep(t, k, true))
		kind = kindOf(k, kind)
		next := obj[k]
		switch kind {
		case 'v':
			if chance(t, 30) {
				p.Steps = append(p.Steps, Step{All: true, Q: pick(t, 0, 0, 1)})
			} else if chance(t, 20) {
				l, _ := next.([]any)
				ix := between(t, 0, len(l))
				p.Steps = append(p.Steps, Step{I: &ix})
			}
			return p, map[string]byte{"v0": 's', "v1": 'o', "v2": 's'}[k]
		case 'y':
			if chance(t, 50) {
				p.Steps = append(p.Steps, Step{All: true, Q: pick(t, 0, 0, 1)})
			}
			return p, 'y'
		case 'l', 't', 'w':
			if chance(t, 65) {
				p.Steps = append(p.Steps, Step{All: true, Q: pick(t, 0, 0, 1)})
				wilds++
				if kind == 'l' && wilds < 2 && chance(t, 30) {
					// go on below the elements
					l, _ := next.([]any)
					obj = nil
					for _, e := range l {
						if m, ok := e.(map[string]any); ok && len(m) > len(obj) {
							obj = m
						}
					}
					kind = 'o'
					k2 := ""
					if chance(t, 50) && obj != nil {
						for _, c := range sortedKeys(obj) {
							if strings.IndexByte("lo", c[0]) >= 0 {
								k2 = c
							}
						}
					}
					if k2 == "" {
						k2 = randomKey(t, "llotw")
					}
					p.Steps = append(p.Steps, keyStep(t, k2, true))
					if k2[0] == 'o' {
						return p, 'o'
					}
					if chance(t, 60) {
						p.Steps = append(p.Steps, Step{All: true, Q: pick(t, 0, 0, 1)})
					}
					return p, elemKind(k2[0])
				}
				return p, elemKind(kind)
			}
			if kind == 'l' && chance(t, 15) {
				// index into the array and go on
				l, _ := next.([]any)
				ix := between(t, 0, len(l))
				p.Steps = append(p.Steps, Step{I: &ix})
				kind = 'o'
				obj = nil
				if ix < len(l) {
					obj, _ = l[ix].(map[string]any)
				}
				continue
			}
			return p, elemKind(kind)
		case 'm':
			return p, 'M'
		case 'd':
			if chance(t, 75) {
				return p, 'D'
			}
			obj, _ = next.(map[string]any)
		case 'o':
			if !o.noKV && chance(t, 20) {
				return p, 'E'
			}
			obj, _ = next.(map[string]any)
		default:
			return p, '?'
		}
	}
	if o.noKV && strings.IndexByte("ltwvy", kind) < 0 {
		k := randomKey(t, "l")
		p.Steps = append(p.Steps, keyStep(t, k, true))
		return p, 'o'
	}
	switch kind {
	case 'o':
		return p, 'E'
	case 'd':
		return p, 'D'
	}
	return p, elemKind(kind)
}

// ---------------------------------------------------------------- conditions

var orderMethods = []string{"GT", "GE", "LT", "LE"}

func lowerSome(t *rapid.T, m string) string {
	if m != "IS" && chance(t, 15) {
		return strings.ToLower(m)
	}
	return m
}

var regexes = []string{"a", "^a", "b$", "a.c", "[a-z]+", "^[0-9]+$", "x|y", "^$", "n.*x", "\\.", "prod|dev", "(a)(b)", "^true$", "\\d", ".", "^.{2}$", "[A-Z]", "a\\sb", "[^a]", "a ", " b", "^ ", "\\t"}

func wordOf(s string) string { return regexp.MustCompile(`[A-Za-z0-9]+`).FindString(s) }

// genCompare draws a method and value for a scalar; actual is the text found on the
// exemplar ("" if nothing).
func genCompare(t *rapid.T, actual string, numeric bool, o genOpt) (string, Val) {
	group := between(t, 0, 9)
	switch {
	case group == 0:
		return lowerSome(t, pick(t, "EX", "NEX")), Val{Kind: "none"}
	case group <= 2:
		v := Val{Kind: "re", S: pick(t, regexes...)}
		if actual != "" && chance(t, 50) {
			r := []rune(actual)
			i := between(t, 0, len(r)-1)
			j := between(t, i+1, len(r))
			v.S = regexp.QuoteMeta(string(r[i:j]))
			if chance(t, 25) {
				v.S = "^" + v.S
			}
			if chance(t, 25) {
				v.S += "$"
			}
		}
		if strings.HasPrefix(v.S, "#") {
			v.S = "[#]"
		}
		return lowerSome(t, pick(t, "RE", "NRE")), v
	case group <= 4:
		v := Val{Kind: "list", NoBr: chance(t, 20)}
		v.List = elements(t, "zz%d", func() string {
			return pick(t, "a", "b", "ab", "abc", "nginx", "prod", "x1", "A", "a-b", "dev", "true", "1", "2", "10", "app")
		})
		if w := wordOf(actual); w != "" && chance(t, 50) {
			v.List[between(t, 0, len(v.List)-1)] = w
		}
		m := pick(t, "IN", "NIN", "IS")
		return lowerSome(t, m), v
	case group <= 6 || numeric:
		v := Val{Kind: "num", S: pick(t, numberTexts...)}
		switch between(t, 0, 3) {
		case 0:
			if _, ok := parseNumber(actual); ok {
				v.S = actual
			}
		case 1:
			v.S = pick(t, "1", "2", "10", "100", "500", "0.5", "1.5", "1000", "1024", "0.1")
			v.Unit = pick(t, unitNames...)
		case 2:
			v.AsNum = chance(t, 50)
		}
		return lowerSome(t, pick(t, "GT", "GE", "LT", "LE", "EQ", "NEQ", "NE", "LE", "GE")), v
	}
	v := Val{Kind: "str", S: genString(t, o)}
	if actual != "" && chance(t, 60) {
		v.S = actual
		if chance(t, 10) {
			v.S = swapCase([]string{actual})[0]
		}
	}
	if strings.HasPrefix(v.S, "#") {
		v.S = "a"
	}
	return lowerSome(t, pick(t, "EQ", "EQ", "NEQ", "NE")), v
}

type scope struct {
	doc  any
	rel  any  // exemplar element
	in   bool // inside a quantifier
	kind byte // kind of the elements: o object, s/n scalars, M D E entries
}

// genPathCond draws a condition on a path that makes sense in the scope.
func genPathCond(t *rapid.T, sc scope, o genOpt) Cond {
	c := Cond{}
	p := Path{Root: rootAbs}
	v, kind := sc.doc, byte('o')
	steps := true
	if sc.in && chance(t, 85) {
		p.Root = rootRel
		v, kind = sc.rel, sc.kind
		switch sc.kind {
		case 'M', 'D', 'E':
			k, val := "", any(nil)
			if m, ok := sc.rel.(map[string]any); ok {
				for kk, vv := range m {
					k, val = kk, vv
				}
			}
			if chance(t, 40) {
				p.Root = rootKey
				v, kind, steps = k, 's', false
			} else {
				p.Root = rootValue
				v = val
				switch sc.kind {
				case 'M':
					kind, steps = 's', false
				case 'D':
					kind = 'o'
				default:
					kind, steps = '?', false
				}
			}
		case 's', 'n':
			steps = false
		case 'y': // anything: with a key it is about the objects only
			if chance(t, 30) {
				kind, steps = '?', false
			} else {
				kind = 'o'
			}
		}
	} else if !sc.in && chance(t, 10) {
		p.Root = rootDot
	}
	if steps {
		if !o.noDeep && p.Root == rootAbs && chance(t, 6) {
			k := randomKey(t, "snusx")
			if k == "s-2" {
				k = "s0" // a deep scan takes plain keys only
			}
			p.Steps = []Step{{K: k, Deep: true}}
			c.Path = &p
			var all []any
			deepFind(v, k, &all)
			if len(all) > 1 || len(all) == 0 || chance(t, 30) {
				c.Method, c.Val = pick(t, "EX", "NEX"), Val{Kind: "none"}
				if k[0] == 's' && chance(t, 50) {
					c.Method, c.Val = pick(t, "RE", "NRE"), Val{Kind: "re", S: pick(t, "a", "b", "nginx", "prod", "x1")}
				}
				return c
			}
			if s, ok := all[0].(string); ok && wordOf(s) == s && s != "" {
				c.Method, c.Val = pick(t, "EQ", "NEQ"), Val{Kind: "str", S: pick(t, s, s, "a")}
				return c
			}
			c.Method, c.Val = pick(t, "EX", "NEX"), Val{Kind: "none"}
			return c
		}
		max := 3
		if sc.in && p.Root != rootAbs {
			max = 2
		}
		if m, ok := v.(map[string]any); !ok || len(m) == 0 {
			// nothing to walk: a plausible key
			k := randomKey(t, "snuxbolm")
			p.Steps = []Step{keyStep(t, k, false)}
			v, kind = nil, k[0]
		} else {
			p.Steps, kind = genLeafSteps(t, v, kind, max)
			if len(p.Steps) == 0 {
				k := randomKey(t, "snux")
				p.Steps = []Step{keyStep(t, k, false)}
				kind = k[0]
			}
			res, _ := follow(v, p.Steps)
			v = nil
			if len(res) == 1 {
				v = res[0]
			}
		}
	}
	fixFirst(p.Steps, 4)
	c.Path = &p
	switch kind {
	case 's', 'n', 'u', 'b', 'x':
		actual := ""
		if s, ok := scalarText(v); ok {
			actual = s
		}
		c.Method, c.Val = genCompare(t, actual, kind == 'n' || kind == 'u', o)
	case 't':
		if chance(t, 50) {
			c.Method, c.Val = pick(t, "RE", "NRE"), Val{Kind: "re", S: pick(t, "a", "b", "nginx", "prod", "x1", "dev")}
		} else {
			c.Method, c.Val = lowerSome(t, pick(t, "EX", "NEX")), Val{Kind: "none"}
		}
	default:
		c.Method, c.Val = lowerSome(t, pick(t, "EX", "NEX")), Val{Kind: "none"}
	}
	return c
}

// ---------------------------------------------------------------- trees

func genRet(t *rapid.T, root string, v any, o genOpt) map[string]Path {
	ret := map[string]Path{}
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		p := Path{Root: root}
		if root == rootRel && chance(t, 20) {
			if chance(t, 50) {
				p.Root = rootStar
			}
		} else if root == rootAbs && chance(t, 12) {
			p.Root = pick(t, rootAbs, rootWhole)
		} else {
			m, ok := v.(map[string]any)
			if !ok || len(m) == 0 {
				p.Steps = []Step{{K: randomKey(t, "nuxo")}}
			} else {
				st, _ := genLeafSteps(t, v, 'o', 2)
				for _, s := range st {
					if s.I == nil && !s.All && !s.Deep {
						s.Q = 0
						if !regexp.MustCompile(`^[A-Za-z][A-Za-z0-9]*$`).MatchString(s.K) {
							s.Q = 1
						}
					}
					p.Steps = append(p.Steps, s)
				}
				if len(p.Steps) == 0 {
					p.Steps = []Step{{K: "s0"}}
				}
			}
		}
		ret[pick(t, "name", "v", "w", "name", "v", "100%v", `q"é \\`)] = p
	}
	return ret
}

func genTree(t *rapid.T, sc scope, depth int, o genOpt) *Node {
	ops := []string{opCond, opAnd, opOr, opNot, opAnd, opOr}
	if !o.noQuant {
		ops = append(ops, opAny, opAll, opAny, opAll, opCond)
	}
	op := opCond
	if depth > 0 {
		op = pick(t, ops...)
	}
	n := &Node{Op: op, Sp: between(t, 0, 7)}
	switch op {
	case opCond:
		if o.attrs && chance(t, 35) {
			c := genAttrCond(t, nil)
			n.Cond = &c
			return n
		}
		c := genPathCond(t, sc, o)
		if !sc.in && !o.noRet && chance(t, 25) || o.ret && !sc.in && chance(t, 40) {
			c.Ret = genRet(t, rootAbs, sc.doc, o)
		}
		n.Cond = &c
	case opAnd, opOr:
		k := pick(t, 2, 1, 3, 2)
		if depth == 1 && chance(t, 50) {
			k = few(t, 1, 3)
		}
		for i := 0; i < k; i++ {
			if i > 0 && chance(t, 4) { // the same again
				k := n.Kids[between(t, 0, i-1)].clone()
				if k.Cond != nil && !sc.in && !o.noRet && chance(t, 50) { // but for the return values
					k.Cond.Ret = genRet(t, rootAbs, sc.doc, o)
				}
				n.Kids = append(n.Kids, k)
				continue
			}
			n.Kids = append(n.Kids, genTree(t, sc, depth-1, o))
		}
	case opNot:
		n.Kids = []*Node{genTree(t, sc, depth-1, o)}
	case opAny, opAll:
		root, v, kind := rootAbs, sc.doc, byte('o')
		if sc.in && chance(t, 80) {
			if sc.kind == 'o' {
				root, v = rootRel, sc.rel
			}
		}
		nParents := 1
		if !o.noMulti && chance(t, 15) {
			nParents = between(t, 2, 3)
		}
		p, ek := genParent(t, root, v, kind, o)
		n.Parents = []Path{p}
		for i := 1; i < nParents && p.Root != rootStar && ek == 'o'; i++ {
			q, qk := genParent(t, root, v, kind, genOpt{noKV: true, noDeep: o.noDeep, noMulti: true})
			if qk == 'o' {
				n.Parents = append(n.Parents, q)
			}
		}
		m := &model{msg: &Msg{HasDoc: true, Doc: sc.doc}}
		var elems []any
		for _, q := range n.Parents {
			rel := sc.rel
			elems = append(elems, m.elements(q, &rel)...)
		}
		in := scope{doc: sc.doc, in: true, kind: ek}
		if len(elems) > 0 {
			in.rel = elems[between(t, 0, len(elems)-1)]
		}
		n.Kids = []*Node{genTree(t, in, depth-1, o)}
		if !o.noRet && (op == opAny && chance(t, 30) || op == opAll && chance(t, 5) || o.ret && op == opAny && chance(t, 70)) && ek != 's' && ek != 'n' && ek != 'y' {
			n.Ret = genRet(t, rootRel, in.rel, o)
		}
	}
	return n
}

// ---------------------------------------------------------------- message attributes

var labelValues = []string{"a", "b", "abc", "axc", "a.c", "prod", "dev", "x1", "a-b", "A"}

func genGlob(t *rapid.T, pool []string) string {
	s := []rune(pick(t, pool...))
	switch between(t, 0, 5) {
	case 0:
		if len(s) > 0 {
			s[between(t, 0, len(s)-1)] = '?'
		}
	case 1:
		if len(s) > 0 {
			s[between(t, 0, len(s)-1)] = '*'
		}
	case 2:
		i := between(t, 0, len(s))
		s = append(s[:i:i], append([]rune{'*'}, s[i:]...)...)
	case 3:
		if chance(t, 30) {
			s = []rune("*")
		}
	}
	return string(s)
}

// genAttrCond draws a condition on a message attribute.
func genAttrCond(t *rapid.T, msg *Msg) Cond {
	c := Cond{}
	strCmp := func(canRecv string) {
		switch g := between(t, 0, 9); {
		case g <= 3:
			c.Method, c.Val = lowerSome(t, pick(t, "EQ", "NEQ", "NE")), Val{Kind: "str", S: genGlob(t, labelValues)}
		case g <= 5:
			c.Method, c.Val = lowerSome(t, pick(t, "RE", "NRE")), Val{Kind: "re", S: pick(t, regexes...)}
		case g <= 7:
			v := Val{Kind: "list", NoBr: chance(t, 20)}
			v.List = elements(t, "zz%d", func() string { return pick(t, "a", "b", "abc", "prod", "dev", "x1", "a-b") })
			c.Method, c.Val = lowerSome(t, pick(t, "IN", "NIN", "IS")), v
		case g == 8:
			c.Method, c.Val = lowerSome(t, pick(t, "EX", "NEX")), Val{Kind: "none"}
		default:
			if canRecv == "label" {
				c.Method, c.Val = lowerSome(t, pick(t, "EQ", "NEQ", "NE")), Val{Kind: "rlabel", S: labelKey(t)}
			} else if canRecv == "attr" {
				c.Method, c.Val = lowerSome(t, pick(t, "EQ", "NEQ", "NE")), Val{Kind: "rattr", S: pick(t, "namespace", "cluster")}
			} else {
				c.Method, c.Val = "EQ", Val{Kind: "str", S: pick(t, labelValues...)}
			}
		}
	}
	numCmp := func(methods []string, vals []string) {
		c.Method = lowerSome(t, pick(t, methods...))
		c.Val = Val{Kind: "num", S: pick(t, vals...)}
		if chance(t, 15) {
			c.Val.AsNum = true
		}
	}
	allNum := []string{"EQ", "NEQ", "NE", "GT", "GE", "LT", "LE"}
	switch between(t, 0, 11) {
	case 0:
		c.Attr = pick(t, "true", "TRUE", "false", "FALSE")
		c.Method, c.Val = pick(t, "EQ", "RE", "EX"), Val{Kind: "str", S: "x"}
	case 1:
		c.Attr = "payloadSize"
		numCmp(allNum, []string{"0", "1", "100", "1024", "2048", "99.5", "-1", "1000000", "9007199254740993", "4294967296", "0100", "01024"})
		if chance(t, 25) {
			c.Val = Val{Kind: "num", S: pick(t, "1", "2", "0.1"), Unit: pick(t, "Ki", "K", "m", "%")}
		}
	case 2:
		c.Attr = "utcHoursFromMidnight"
		numCmp(allNum, []string{"0", "5", "12.5", "23", "9.25", "24", "14"})
	case 3:
		c.Attr = "encryptionVersion"
		numCmp([]string{"EQ", "LT", "LE", "GT", "GE"}, []string{"1.2", "1.0", "1", "1.3", "2"})
	case 4:
		c.Attr = "encryptionType"
		strCmp("")
	case 5:
		c.Attr = "domain"
		strCmp("")
	case 6:
		c.Attr = "requestUseragent"
		strCmp("")
	case 7, 8:
		c.Attr = "senderLabel[" + labelKey(t) + "]"
		strCmp("label")
	case 9:
		c.Attr = "receiverLabel[" + labelKey(t) + "]"
		strCmp("")
	case 10:
		c.Attr = "$sender." + pick(t, "namespace", "cluster")
		strCmp("attr")
	case 11:
		c.Attr = "$receiver." + pick(t, "namespace", "cluster")
		strCmp("")
	}
	return c
}

func labelKey(t *rapid.T) string {
	if chance(t, 25) {
		return pick(t, "App", "k8s.io/name", "Tier_2", "é", "x.y")
	}
	return pick(t, "app", "tier", "x-y")
}

func genLabels(t *rapid.T) map[string]string {
	m := map[string]string{}
	for i, n := 0, between(t, 0, 3); i < n; i++ {
		m[labelKey(t)] = pick(t, labelValues...)
		if chance(t, 6) {
			m[labelKey(t)] = ""
		}
	}
	return m
}

// genMsg draws a message without a document.
func genMsg(t *rapid.T) Msg {
	m := Msg{
		Src: pick(t, workloads...), Dst: pick(t, workloads...), SrcIP: pick(t, addresses...), DstIP: pick(t, addresses...),
		Port: pick(t, "80", "443", "8080", "8081"), Path: pick(t, paths...), Host: pick(t, hosts...), Method: pick(t, methodsPool...),
		Proto: pick(t, "HTTP", "http", "tcp", "kafka", "KAFKA"), Type: pick(t, "path", "port", "kafkaTopic", "consumerGroup", ""),
		Size: pick(t, int64(0), 1, 99, 100, 1024, 2048, 1000000, 4294967296, 9007199254740992, 9007199254740993), UA: pick(t, "", "a", "abc", "axc", "prod", "a-b", "a\nc"),
		EncType: pick(t, "", "a", "b", "abc"), Domain: pick(t, "", "a", "dev", "a.c", "axc", "a\n"),
		SrcNS: pick(t, "", "a", "prod", "dev", "abc"), DstNS: pick(t, "", "a", "prod", "dev", "abc"),
		SrcCl: pick(t, "a", "b", "x1", ""), DstCl: pick(t, "a", "b", "x1", ""),
		SrcLabels: genLabels(t), DstLabels: genLabels(t),
		Sec: pick(t, 0, 5*3600, 45000, 33300, 86399, 50400),
	}
	if chance(t, 80) {
		v := pick(t, 1.0, 1.2, 1.3, 2)
		m.EncVer = &v
	}
	return m
}

func withDoc(t *rapid.T, m Msg, doc any) Msg {
	m.HasDoc, m.Doc = true, doc
	m.Style = between(t, 0, 15)
	return m
}

// ---------------------------------------------------------------- rule frames

var workloads = []string{"ns:a", "ns:b", "a.b", "axb", "svc", "svc1", "abc", "a", "ns2:svc.x", "NS:a", "é1", ""}
var hosts = []string{"h1", "h1.com", "h1xcom", "www.h1.com", "a", "h1.com:8080", "H1.com", ""}
var paths = []string{"/", "/a", "/a/b", "/a/bc", "/A", "/a.b", "/axb", "", "/x?y=1", "/a+b"}
var methodsPool = []string{"GET", "HEAD", "OPTIONS", "TRACE", "POST", "PUT", "DELETE", "READ", "read", "CONSUME", "PRODUCE", "PATCH", "get", "WRITE", ""}
var addresses = []string{"10.0.0.1", "10.0.0.2", "10.1.2.3", "192.168.1.7", "172.16.5.4", "::1", "2001:db8::1", "2001:db8:0:0::1", "0.0.0.0", "255.255.255.255", "", "10.0.0.129"}
var subnets = []string{"10.0.0.1", "10.0.0.0/8", "10.0.0.0/24", "10.0.0.128/25", "10.0.0.1/32", "192.168.0.0/16", "10.1.2.3/31", "*", "0.0.0.0/0", "::1", "2001:db8::/32", "2001:db8::1", "2001:0db8::0001", "::/0", "172.16.0.0/12"}

var seps = []string{",", ", ", " , ", " ,"}

func genParty(t *rapid.T, receiver bool, pool []string) Party {
	types := []string{"workload", "workload", "*", "subnet"}
	if receiver {
		types = append(types, "hostname")
	}
	p := Party{Type: pick(t, types...)}
	filler := "zz%d"
	if p.Type == "subnet" {
		filler = "203.0.113.%d"
	}
	p.Names = elements(t, filler, func() string {
		switch p.Type {
		case "subnet":
			return pick(t, subnets...)
		case "hostname":
			return genGlob(t, hosts[:7])
		}
		return genGlob(t, pool)
	})
	p.Sep = pick(t, seps...)
	return p
}

func genDecision(t *rapid.T) string {
	d := pick(t, "allow", "alert", "block")
	switch between(t, 0, 3) {
	case 2:
		return strings.ToUpper(d)
	case 3:
		return strings.ToUpper(d[:1]) + d[1:]
	}
	return d
}

// genFrame draws everything of a rule except its conditions; loose rules match often.
func genFrame(t *rapid.T, i int, loose bool) RuleAST {
	r := anyRule(genDecision(t), nil)
	r.ID = fmt.Sprintf("r%d", i)
	if !loose || chance(t, 13) {
		r.Sender = genParty(t, false, workloads[:10])
	}
	if !loose || chance(t, 13) {
		r.Receiver = genParty(t, true, workloads[:10])
	}
	if !loose || chance(t, 13) {
		r.Proto = pick(t, "*", "tcp", "http", "HTTP", "kafka", "Kafka")
		r.ResType = pick(t, "*", "path", "port", "kafkaTopic")
		pool := paths[:7]
		if r.Proto == "tcp" {
			pool = []string{"80", "443", "8080", "8081"}
		}
		r.ResNames = elements(t, "/zz%d", func() string { return genGlob(t, pool) })
		r.ResSep = pick(t, seps...)
	}
	if !loose || chance(t, 13) {
		r.Ops = nil
		if chance(t, 50) {
			r.Ops = []string{pick(t, "read", "READ", "write", "WRITE", "*")}
		} else {
			r.Ops = elements(t, "zz%d", func() string { return genGlob(t, methodsPool[:12]) })
			r.OpSep = pick(t, seps...)
		}
	}
	switch between(t, 0, 3) {
	case 1:
		r.Meta = map[string]string{"description": fmt.Sprintf("desc %d", between(t, 0, 3))}
	case 2:
		r.Meta = map[string]string{"other": "x"}
	case 3:
		r.Meta = map[string]string{"description": "", "severity": "high"}
	}
	return r
}
