package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	me "github.com/octarinesec/MAPL/MAPL_engine"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"pgregory.net/rapid"
)

// An evaluator of the part of MongoDB's query language a translation can use. Queries
// are sent through BSON first, so that it does not matter which Go types they are
// made of. A query MongoDB would refuse gives an error.

type badQuery string

func (b badQuery) Error() string { return string(b) }

type mongo struct{}

func plainBSON(v any) any {
	switch x := v.(type) {
	case primitive.M:
		return plainBSON(map[string]any(x))
	case primitive.D:
		m := map[string]any{}
		for _, e := range x {
			m[e.Key] = plainBSON(e.Value)
		}
		return m
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = plainBSON(e)
		}
		return m
	case primitive.A:
		return plainBSON([]any(x))
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = plainBSON(e)
		}
		return l
	case int32:
		return float64(x)
	case int64:
		return float64(x)
	}
	return v
}

// throughBSON gives the query as the server would see it.
func throughBSON(q any) (any, error) {
	b, err := bson.Marshal(bson.M{"q": q})
	if err != nil {
		return nil, badQuery("the query cannot be encoded: " + err.Error())
	}
	var back bson.M
	if err := bson.Unmarshal(b, &back); err != nil {
		return nil, err
	}
	return plainBSON(back["q"]), nil
}

func fieldParts(field string) []string {
	if field == "" || strings.HasPrefix(field, "$") {
		panic(badQuery(fmt.Sprintf("bad field name %q", field)))
	}
	parts := strings.Split(field, ".")
	for _, p := range parts {
		if p == "" || strings.ContainsAny(p, `[]'"`) || strings.HasPrefix(p, "$") || strings.Contains(p, "jsonpath:") {
			panic(badQuery(fmt.Sprintf("bad field name %q", field)))
		}
	}
	return parts
}

// resolve gives every value a dotted path of a query leads to.
func (mongo) resolve(v any, parts []string) []any {
	if len(parts) == 0 {
		return []any{v}
	}
	switch x := v.(type) {
	case map[string]any:
		if e, ok := x[parts[0]]; ok {
			return mongo{}.resolve(e, parts[1:])
		}
	case []any:
		var out []any
		if i, err := strconv.Atoi(parts[0]); err == nil && i >= 0 && i < len(x) {
			out = append(out, mongo{}.resolve(x[i], parts[1:])...)
		}
		for _, e := range x {
			if _, ok := e.(map[string]any); ok {
				out = append(out, mongo{}.resolve(e, parts)...)
			}
		}
		return out
	}
	return nil
}

func asList(v any, op string) []any {
	l, ok := v.([]any)
	if !ok {
		panic(badQuery(op + " needs an array"))
	}
	return l
}

func asMap(v any, op string) map[string]any {
	m, ok := v.(map[string]any)
	if !ok {
		panic(badQuery(op + " needs an object"))
	}
	return m
}

func isLogical(k string) bool { return k == "$and" || k == "$or" || k == "$nor" }

func (q mongo) match(doc any, query map[string]any) bool {
	all := true
	for _, k := range sortedKeys(query) {
		v := query[k]
		r := false
		switch {
		case isLogical(k):
			l := asList(v, k)
			if len(l) == 0 {
				panic(badQuery(k + " needs a nonempty array"))
			}
			n := 0
			for _, e := range l {
				if q.match(doc, asMap(e, k)) {
					n++
				}
			}
			r = k == "$and" && n == len(l) || k == "$or" && n > 0 || k == "$nor" && n == 0
		case k == "$comment":
			r = true
		case strings.HasPrefix(k, "$"):
			panic(badQuery("unknown top level operator: " + k))
		default:
			vals := q.resolve(doc, fieldParts(k))
			ops, ok := v.(map[string]any)
			if ok && len(ops) > 0 && strings.HasPrefix(sortedKeys(ops)[0], "$") {
				r = q.test(vals, ops)
			} else if re, isRe := v.(primitive.Regex); isRe {
				r = q.test(vals, map[string]any{"$regex": re})
			} else {
				r = q.test(vals, map[string]any{"$eq": v})
			}
		}
		all = all && r
	}
	return all
}

// test applies the operators to the values a path leads to.
func (q mongo) test(vals []any, ops map[string]any) bool {
	spread := []any{}
	for _, v := range vals {
		spread = append(spread, v)
		if l, ok := v.([]any); ok {
			spread = append(spread, l...)
		}
	}
	some := func(f func(v any) bool) bool {
		r := false
		for _, v := range spread {
			r = f(v) || r
		}
		return r
	}
	all := true
	for _, op := range sortedKeys(ops) {
		arg := ops[op]
		r := false
		switch op {
		case "$eq":
			r = some(func(v any) bool { return canon(v) == canon(arg) })
		case "$ne":
			r = !some(func(v any) bool { return canon(v) == canon(arg) })
		case "$in", "$nin":
			for _, e := range asList(arg, op) {
				if re, ok := e.(primitive.Regex); ok {
					r = r || q.test(vals, map[string]any{"$regex": re})
				} else {
					r = r || some(func(v any) bool { return canon(v) == canon(e) })
				}
			}
			r = r == (op == "$in")
		case "$gt", "$gte", "$lt", "$lte":
			r = some(func(v any) bool {
				c := 0
				switch a := arg.(type) {
				case float64:
					x, ok := v.(float64)
					if !ok {
						return false
					}
					switch {
					case x < a:
						c = -1
					case x > a:
						c = 1
					}
				case string:
					x, ok := v.(string)
					if !ok {
						return false
					}
					c = strings.Compare(x, a)
				default:
					return false
				}
				return op == "$gt" && c > 0 || op == "$gte" && c >= 0 || op == "$lt" && c < 0 || op == "$lte" && c <= 0
			})
		case "$exists":
			want, ok := arg.(bool)
			if !ok {
				panic(badQuery("$exists needs a boolean here"))
			}
			r = (len(vals) > 0) == want
		case "$options":
			r = true
		case "$regex":
			pat, flags := "", ""
			switch x := arg.(type) {
			case string:
				pat = x
			case primitive.Regex:
				pat, flags = x.Pattern, x.Options
			default:
				panic(badQuery("$regex has to be a string"))
			}
			if o, ok := ops["$options"].(string); ok {
				flags += o
			}
			if flags != "" {
				pat = "(?" + flags + ")" + pat
			}
			re, err := regexp.Compile(pat)
			if err != nil {
				panic(badQuery("$regex: " + err.Error()))
			}
			r = some(func(v any) bool { s, ok := v.(string); return ok && re.MatchString(s) })
		case "$not":
			if re, ok := arg.(primitive.Regex); ok {
				r = !q.test(vals, map[string]any{"$regex": re})
				break
			}
			m := asMap(arg, op)
			if len(m) == 0 {
				panic(badQuery("$not cannot be empty"))
			}
			r = !q.test(vals, m)
		case "$size":
			for _, v := range vals {
				l, ok := v.([]any)
				r = r || ok && canon(float64(len(l))) == canon(arg)
			}
		case "$elemMatch":
			m := asMap(arg, op)
			keys := sortedKeys(m)
			byValue := len(keys) > 0 && strings.HasPrefix(keys[0], "$") && !isLogical(keys[0])
			for _, v := range vals {
				l, ok := v.([]any)
				if !ok {
					continue
				}
				for _, e := range l {
					if byValue {
						r = q.test([]any{e}, m) || r
						continue
					}
					switch e.(type) {
					case map[string]any, []any:
						r = q.match(e, m) || r
					}
				}
			}
		default:
			panic(badQuery("unknown operator: " + op))
		}
		all = all && r
	}
	return all
}

// expression evaluates an aggregation expression; ok is false for a missing value.
func (q mongo) expression(doc any, e any) (any, bool) {
	switch x := e.(type) {
	case string:
		if !strings.HasPrefix(x, "$") {
			return x, true
		}
		v, ok := doc, true
		for _, p := range fieldParts(x[1:]) {
			v, ok = q.exprStep(v, p)
			if !ok {
				return nil, false
			}
		}
		return v, ok
	case map[string]any:
		if len(x) == 1 {
			for op, arg := range x {
				switch op {
				case "$literal":
					return arg, true
				case "$objectToArray":
					if l, ok := arg.([]any); ok && len(l) == 1 {
						arg = l[0]
					}
					v, ok := q.expression(doc, arg)
					if !ok || v == nil {
						return nil, true
					}
					m, ok := v.(map[string]any)
					if !ok {
						panic(badQuery("$objectToArray requires a document input"))
					}
					out := []any{}
					for _, k := range sortedKeys(m) {
						out = append(out, map[string]any{"k": k, "v": m[k]})
					}
					return out, true
				case "$ifNull":
					for _, a := range asList(arg, op) {
						if v, ok := q.expression(doc, a); ok && v != nil {
							return v, true
						}
					}
					return nil, true
				}
			}
		}
	}
	panic(badQuery("unknown expression: " + canon(e)))
}

func (q mongo) exprStep(v any, key string) (any, bool) {
	switch x := v.(type) {
	case map[string]any:
		e, ok := x[key]
		return e, ok
	case []any:
		out := []any{}
		for _, e := range x {
			if r, ok := q.exprStep(e, key); ok {
				out = append(out, r)
			}
		}
		return out, true
	}
	return nil, false
}

func setField(v any, parts []string, val any) any {
	if len(parts) == 0 {
		return val
	}
	switch x := v.(type) {
	case map[string]any:
		x[parts[0]] = setField(x[parts[0]], parts[1:], val)
		return x
	case []any:
		for i, e := range x {
			x[i] = setField(e, parts, val)
		}
		return x
	}
	return map[string]any{parts[0]: setField(nil, parts[1:], val)}
}

// selects tells whether the query (or pipeline) selects the stored document.
func (q mongo) selects(stored map[string]any, query any) (sel bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(badQuery)
			if !ok {
				panic(r)
			}
			err = b
		}
	}()
	seen, err := throughBSON(query)
	if err != nil {
		return false, err
	}
	switch x := seen.(type) {
	case map[string]any:
		return q.match(stored, x), nil
	case []any:
		doc := deepCopy(stored).(map[string]any)
		for _, st := range x {
			m := asMap(st, "a pipeline stage")
			if len(m) != 1 {
				panic(badQuery("a pipeline stage specification object must contain exactly one field"))
			}
			for op, arg := range m {
				switch op {
				case "$addFields", "$set":
					before := deepCopy(doc).(map[string]any)
					for _, f := range sortedKeys(asMap(arg, op)) {
						v, ok := q.expression(before, asMap(arg, op)[f])
						if ok {
							setField(doc, fieldParts(f), v)
						}
					}
				case "$match":
					if !q.match(doc, asMap(arg, op)) {
						return false, nil
					}
				default:
					panic(badQuery("unknown stage: " + op))
				}
			}
		}
		return true, nil
	}
	return false, badQuery("neither a query nor a pipeline: " + canon(seen))
}

// ---------------------------------------------------------------- cases

type caseMongo struct {
	Tree   *Node          `json:"tree"`
	Docs   []any          `json:"docs"`
	Base   string         `json:"base"`
	Decoy  map[string]any `json:"decoy,omitempty"`
	Loader string         `json:"loader"`
	Sp     int            `json:"sp,omitempty"`
}

func (c caseMongo) store(doc any) map[string]any {
	out := map[string]any{}
	if c.Base != "" {
		for k, v := range c.Decoy {
			out[k] = deepCopy(v)
		}
	}
	if c.Base == "" {
		for k, v := range doc.(map[string]any) {
			out[k] = deepCopy(v)
		}
	} else {
		setField(out, strings.Split(c.Base, "."), deepCopy(doc))
	}
	out["_id"] = "id"
	return out
}

// storable keeps what the documentation lets documents contain: no numbers with
// units, nothing empty, no keys with dots.
func storable(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			if strings.Contains(k, ".") || k[0] == 'u' && k != "u" {
				continue
			}
			e = storable(e)
			if l, ok := e.([]any); ok && len(l) == 0 || e == nil || e == "" {
				continue
			}
			m[k] = e
		}
		return m
	case []any:
		l := []any{}
		for _, e := range x {
			l = append(l, storable(e))
		}
		return l
	case string:
		if _, ok := parseNumber(x); ok {
			return "str"
		}
	}
	return v
}

// What the documentation says about a tree: "yes" it is supported, "no" it has to be
// refused, "" it may be either (but not translated wrongly).
func mongoSupport(n *Node, in []*Node) string {
	worst := func(a, b string) string {
		switch {
		case a == "no" || b == "no":
			return "no"
		case a == "" || b == "":
			return ""
		}
		return "yes"
	}
	r := "yes"
	if n.Op == opCond {
		if n.Cond.Path == nil {
			return "no"
		}
		p := n.Cond.Path
		for _, s := range p.Steps {
			if s.Deep {
				return "no"
			}
		}
		switch {
		case p.Root == rootKey || p.Root == rootValue:
			q := in[len(in)-1]
			if q.Op == opAll || len(in) > 1 {
				return "no"
			}
			for _, par := range q.Parents {
				for _, s := range par.Steps {
					if s.All {
						return "no"
					}
					if s.I != nil {
						return ""
					}
				}
			}
		case !p.relative() && len(in) > 0:
			return ""
		case p.Root == rootRel && len(p.Steps) == 0:
			return ""
		}
		return "yes"
	}
	if n.Op == opAny || n.Op == opAll {
		for _, p := range n.Parents {
			for _, s := range p.Steps {
				if s.Deep {
					return "no"
				}
			}
			if p.Root == rootStar || p.Root == rootAbs && len(in) > 0 {
				r = ""
			}
		}
		in = append(in[:len(in):len(in)], n)
	}
	for _, k := range n.Kids {
		r = worst(r, mongoSupport(k, in))
	}
	return r
}

// mongoPaths makes the paths of a tree ones that make sense for stored documents.
var listKey = regexp.MustCompile(`^[ltw][0-9]+$`)

func mongofy(t *rapid.T, n *Node) {
	n.walk(func(k *Node) {
		for i := range k.Parents {
			for j := range k.Parents[i].Steps {
				if strings.Contains(k.Parents[i].Steps[j].K, ".") {
					k.Parents[i].Steps[j].K = "app"
				}
			}
		}
		c := k.Cond
		if c == nil || c.Path == nil {
			return
		}
		// a name after a list means something else in MongoDB
		for j := 1; j < len(c.Path.Steps); j++ {
			if c.Path.Steps[j].K != "" && listKey.MatchString(c.Path.Steps[j-1].K) {
				c.Path.Steps = c.Path.Steps[:j]
				c.Method, c.Val = pick(t, "EX", "NEX"), Val{Kind: "none"}
			}
		}
		kind := byte('?')
		for j := range c.Path.Steps {
			s := &c.Path.Steps[j]
			if strings.Contains(s.K, ".") {
				s.K = "app"
			}
			switch {
			case s.I != nil && kind == 't':
				kind = 's'
			case s.I != nil:
				kind = 'n'
			case s.K != "":
				kind = s.K[0]
			}
		}
		if c.Val.Kind == "num" {
			c.Val.Unit = ""
			if f, err := strconv.ParseFloat(c.Val.S, 64); err == nil && f != f {
				c.Val.S = "1"
			}
		}
		// regular expressions are for strings; see the known finding regex-on-number
		if c.Val.Kind == "re" && strings.IndexByte("nxbw", kind) >= 0 {
			c.Method, c.Val = pick(t, "EX", "NEX"), Val{Kind: "none"}
		}
	})
}

// arraysOnly tells whether every quantifier that is not about keys and values ranges
// over arrays; the documentation has no other kind.
func arraysOnly(n *Node) bool {
	ok := true
	n.walk(func(k *Node) {
		if k.Op != opAny && k.Op != opAll {
			return
		}
		kv := usesKV(k.Kids[0])
		for _, p := range k.Parents {
			if p.Root == rootStar {
				continue
			}
			key := ""
			wild := false
			for _, s := range p.Steps {
				if s.K != "" {
					key = s.K
				}
				wild = wild || s.All
			}
			last := p.Steps[len(p.Steps)-1]
			array := strings.IndexByte("ltw", key[0]) >= 0 && key != "lbl" && key != "tier" && last.I == nil
			if array == kv || !array && wild {
				ok = false
			}
		}
	})
	return ok
}

// usesKV: conditions on the keys or values of the innermost quantifier around n.
func usesKV(n *Node) bool {
	if n.Op == opCond {
		return n.Cond.Path != nil && (n.Cond.Path.Root == rootKey || n.Cond.Path.Root == rootValue)
	}
	if n.Op == opAny || n.Op == opAll {
		return false
	}
	for _, k := range n.Kids {
		if usesKV(k) {
			return true
		}
	}
	return false
}

func translate(c caseMongo) (res me.MaplToMongoResult, err error) {
	r, err := loadTree(c.Tree, c.Sp, c.Loader)
	if err != nil {
		return res, violated("a well-formed rule does not load: %v", err)
	}
	var terr error
	if err := guarded("translating", func() { res, terr = r.ToMongoQuery(c.Base) }); err != nil {
		return res, err
	}
	if terr != nil {
		return res, refusedErr{terr}
	}
	return res, nil
}

type refusedErr struct{ error }

func checkMongo(c caseMongo, x *ctx) error {
	support := mongoSupport(c.Tree, nil)
	res, err := translate(c)
	if r, ok := err.(refusedErr); ok {
		if support == "yes" {
			return violated("a supported tree is refused: %v", r.error)
		}
		x.class("refused")
		x.nt(support == "no" && c.Tree.Op != opCond)
		return nil
	}
	if err != nil {
		return err
	}
	if support == "no" {
		return violated("an unsupported tree is translated")
	}
	sel, dif := 0, false
	for _, doc := range c.Docs {
		m := &model{msg: &Msg{HasDoc: true, Doc: doc}}
		want, _ := m.eval(c.Tree, nil)
		if m.inexact {
			x.class("inexact")
			continue
		}
		got, err := mongo{}.selects(c.store(doc), res.Query)
		if err != nil {
			return violated("the query is not one MongoDB takes: %v", err)
		}
		if got != want {
			return violated("the query and the conditions disagree")
		}
		if want {
			sel++
		}
		dif = dif || res.Type == me.QueryTypeAggregate
	}
	switch res.Query.(type) {
	case bson.M:
		if res.Type != me.QueryTypeSimple {
			return violated("wrong type of result")
		}
	case []bson.M:
		if res.Type != me.QueryTypeAggregate {
			return violated("wrong type of result")
		}
	}
	x.class("%s", res.Type)
	x.class("base %q", c.Base)
	x.class("selected %v", sel == len(c.Docs))
	c.Tree.walk(func(n *Node) {
		if n.Op != opCond {
			x.class("%s", n.Op)
		} else {
			x.class("%s %s", n.Cond.Path.Root, strings.ToUpper(n.Cond.Method))
		}
	})
	x.nt(c.Tree.Op != opCond && support == "yes")
	return nil
}

var mongoBases = []string{"raw", "raw", "raw.doc", "", "a.b.c"}

// mutateDoc changes something, to get a document that is near the first one.
func mutateDoc(t *rapid.T, v any, o genOpt) any {
	m, ok := v.(map[string]any)
	if !ok || len(m) == 0 {
		return v
	}
	k := pick(t, sortedKeys(m)...)
	switch e := m[k].(type) {
	case map[string]any:
		if chance(t, 70) {
			mutateDoc(t, e, o)
			return m
		}
	case []any:
		if len(e) > 0 {
			i := between(t, 0, len(e)-1)
			switch {
			case chance(t, 60):
				if _, ok := e[i].(map[string]any); ok {
					mutateDoc(t, e[i], o)
					return m
				}
			case chance(t, 50):
				m[k] = append(e[:i:i], e[i+1:]...)
				return m
			}
		}
	case string:
		if chance(t, 60) {
			m[k] = genString(t, o)
			return m
		}
	case float64:
		if chance(t, 60) {
			m[k] = pick(t, numbers...)
			return m
		}
	case bool:
		m[k] = !e
		return m
	}
	delete(m, k)
	return m
}

func genMongoCase(t *rapid.T, tree func(doc any) *Node, o genOpt) caseMongo {
	doc := storable(genDoc(t, o))
	c := caseMongo{Docs: []any{doc}, Base: pick(t, mongoBases...), Loader: pick(t, "yaml", "json"), Sp: between(t, 0, 3)}
	for i, n := 0, between(t, 1, 3); i < n; i++ {
		d := deepCopy(doc)
		for j, k := 0, between(t, 1, 3); j < k; j++ {
			d = mutateDoc(t, d, o)
		}
		c.Docs = append(c.Docs, storable(d))
	}
	if chance(t, 70) {
		d := mutateDoc(t, deepCopy(doc), o).(map[string]any)
		delete(d, "raw")
		c.Decoy = storable(d).(map[string]any)
	}
	c.Tree = tree(doc)
	return c
}

func init() {
	rules["C16"] = "non-trivial: the tree has a boolean or quantifier node, and either is within the documented support and its query was evaluated on all stored documents, or is unsupported and was refused"
	addProbe("C16", "regex-on-number", func() error {
		c := caseMongo{Tree: leaf(Cond{Path: &Path{Root: rootAbs, Steps: []Step{{K: "n0"}}}, Method: "RE", Val: Val{Kind: "re", S: "^1"}}), Docs: []any{map[string]any{"n0": 10.0}}, Base: "raw"}
		return checkMongo(c, &ctx{})
	})

	mo := genOpt{noDeep: true, noRet: true, noEmpty: true}
	supported := func(t *rapid.T, depth int, o genOpt) func(doc any) *Node {
		return func(doc any) *Node {
			for i := 0; i < 6; i++ {
				n := genTree(t, scope{doc: doc}, depth, o)
				mongofy(t, n)
				if arraysOnly(n) {
					return n
				}
			}
			n := leaf(genPathCond(t, scope{doc: doc}, o))
			mongofy(t, n)
			return n
		}
	}
	addFacet("C16", "queries", 9000, func(t *rapid.T) caseMongo {
		o := mo
		o.odd = chance(t, 30)
		o.noKV = true
		return genMongoCase(t, supported(t, between(t, 1, 4), o), o)
	}, checkMongo)

	addFacet("C16", "conditions", 5000, func(t *rapid.T) caseMongo {
		o := mo
		o.odd = chance(t, 40)
		return genMongoCase(t, func(doc any) *Node {
			n := leaf(genPathCond(t, scope{doc: doc}, o))
			if chance(t, 60) {
				n = &Node{Op: opNot, Kids: []*Node{n}}
			}
			mongofy(t, n)
			return n
		}, o)
	}, checkMongo)

	addFacet("C16", "keys-and-values", 5000, func(t *rapid.T) caseMongo {
		o := mo
		return genMongoCase(t, func(doc any) *Node {
			return genKVTree(t, doc, between(t, 0, 2), o)
		}, o)
	}, checkMongo)

	addFacet("C16", "unsupported", 5000, func(t *rapid.T) caseMongo {
		o := genOpt{noRet: true, noEmpty: true}
		return genMongoCase(t, func(doc any) *Node {
			n := supported(t, between(t, 0, 3), mo)(doc)
			var at []*Node
			n.walk(func(k *Node) {
				if k.Op == opCond {
					at = append(at, k)
				}
			})
			k := at[between(t, 0, len(at)-1)]
			switch between(t, 0, 4) {
			case 0:
				*k = *leaf(genAttrCond(t, nil))
			case 1:
				*k = *leaf(Cond{Path: &Path{Root: rootAbs, Steps: []Step{{K: pick(t, "s0", "n0", "s1"), Deep: true}}}, Method: pick(t, "EX", "NEX", "EQ"), Val: Val{Kind: "str", S: "a"}})
				if chance(t, 40) {
					k.Cond.Path.Steps = append([]Step{{K: pick(t, "o0", "o1")}}, k.Cond.Path.Steps...)
				}
			case 2:
				p := Path{Root: rootAbs, Steps: []Step{{K: pick(t, "l0", "l1"), Deep: true}}}
				if chance(t, 40) {
					p.Steps = append([]Step{{K: pick(t, "o0", "o1")}}, p.Steps...)
				}
				if chance(t, 50) {
					p.Steps = append(p.Steps, Step{All: true})
				}
				*k = Node{Op: pick(t, opAny, opAll), Parents: []Path{p}, Kids: []*Node{leaf(Cond{Path: &Path{Root: rootRel, Steps: []Step{{K: "s0"}}}, Method: "EX", Val: Val{Kind: "none"}})}}
			case 3: // a key or value in ALL
				*k = *kvNode(opAll, Path{Root: rootAbs, Steps: []Step{{K: pick(t, "m0", "m1")}}}, genKVCond(t, "app", "a", mo))
			case 4: // a key or value inside an array
				in := kvNode(opAny, Path{Root: rootRel, Steps: []Step{{K: pick(t, "m0", "m1")}}}, genKVCond(t, "app", "a", mo))
				if chance(t, 50) {
					p := Path{Root: rootAbs, Steps: []Step{{K: "l0"}}}
					if chance(t, 60) {
						p.Steps = append(p.Steps, Step{All: true, Q: between(t, 0, 1)})
					}
					*k = Node{Op: pick(t, opAny, opAll), Parents: []Path{p}, Kids: []*Node{in}}
				} else {
					in.Parents[0] = Path{Root: rootAbs, Steps: []Step{{K: "l0"}, {All: true, Q: between(t, 0, 1)}, {K: "m0"}}}
					*k = *in
				}
			}
			return n
		}, o)
	}, checkMongo)
}

func kvNode(op string, p Path, conds ...*Node) *Node {
	n := &Node{Op: op, Parents: []Path{p}, Kids: conds}
	if len(conds) > 1 {
		n.Kids = []*Node{{Op: opAnd, Kids: conds}}
	}
	return n
}

func genKVCond(t *rapid.T, key, val string, o genOpt) *Node {
	c := Cond{Path: &Path{Root: pick(t, rootKey, rootValue)}}
	actual := val
	if c.Path.Root == rootKey {
		actual = key
	}
	c.Method, c.Val = genCompare(t, actual, false, o)
	if c.Val.Kind == "num" {
		c.Method, c.Val = "EQ", Val{Kind: "str", S: actual}
	}
	return leaf(c)
}

// genKVTree: a condition on the keys and values of an object, inside booleans.
func genKVTree(t *rapid.T, doc any, depth int, o genOpt) *Node {
	if depth > 0 && chance(t, 60) {
		op := pick(t, opAnd, opOr, opNot)
		n := &Node{Op: op}
		k := 1
		if op != opNot {
			k = between(t, 1, 3)
		}
		for i := 0; i < k; i++ {
			if chance(t, 30) {
				l := leaf(genPathCond(t, scope{doc: doc}, o))
				mongofy(t, l)
				n.Kids = append(n.Kids, l)
			} else {
				n.Kids = append(n.Kids, genKVTree(t, doc, depth-1, o))
			}
		}
		return n
	}
	root := doc.(map[string]any)
	key := pick(t, "m0", "m1", "d0", "o0")
	p := Path{Root: rootAbs}
	if !chance(t, 65) {
		if oo, ok := root["o0"].(map[string]any); ok {
			p.Steps = append(p.Steps, Step{K: "o0"})
			root = oo
		}
	}
	for _, k := range []string{"o0", "m0", "m1", "d0"} {
		if _, ok := root[k]; ok && chance(t, 50) {
			key = k
		}
	}
	p.Steps = append(p.Steps, keyStep(t, key, true))
	fixFirst(p.Steps, 0)
	ek, ev := "app", any("a")
	if m, ok := root[key].(map[string]any); ok && len(m) > 0 {
		ek = pick(t, sortedKeys(m)...)
		ev = m[ek]
	}
	var sub func(d int) *Node
	sub = func(d int) *Node {
		if d > 0 && chance(t, 50) {
			op := pick(t, opAnd, opAnd, opOr, opNot)
			n := &Node{Op: op, Kids: []*Node{sub(d - 1)}}
			if op != opNot {
				n.Kids = append(n.Kids, sub(d-1))
			}
			return n
		}
		if key[0] == 'd' {
			n := leaf(genPathCond(t, scope{doc: doc, in: true, kind: 'D', rel: map[string]any{ek: ev}}, o))
			if !n.Cond.Path.relative() {
				n = leaf(Cond{Path: &Path{Root: rootKey}, Method: "EQ", Val: Val{Kind: "str", S: ek}})
			}
			mongofy(t, n)
			return n
		}
		s, _ := ev.(string)
		n := genKVCond(t, ek, s, o)
		if key[0] == 'o' && n.Cond.Path.Root == rootValue {
			n.Cond.Method, n.Cond.Val = pick(t, "EX", "NEX"), Val{Kind: "none"}
		}
		return n
	}
	return &Node{Op: opAny, Parents: []Path{p}, Kids: []*Node{sub(2)}, Sp: between(t, 0, 7)}
}
