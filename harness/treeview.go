package main

import "reflect"

// The loaded conditions tree is looked at by reflection, so that the harness still builds when the engine's
// own structures are arranged differently. What cannot be found is not compared here; the decisions and
// written forms are compared elsewhere.

type loaded struct {
	kind string // type name of the node: And, Or, Not, Any, All, Condition
	v    reflect.Value
}

func loadedNode(n interface{}) (loaded, bool) {
	v := reflect.ValueOf(n)
	for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		if v.IsNil() {
			return loaded{}, false
		}
		v = v.Elem()
	}
	if !v.IsValid() || v.Kind() != reflect.Struct {
		return loaded{}, false
	}
	return loaded{kind: v.Type().Name(), v: v}, true
}

// rootOf is the root of the conditions of a loaded rule.
func rootOf(rule interface{}) (interface{}, bool) {
	r, ok := loadedNode(rule)
	if !ok {
		return nil, false
	}
	c := r.v.FieldByName("Conditions")
	if !c.IsValid() || c.Kind() != reflect.Struct {
		return nil, false
	}
	t := c.FieldByName("ConditionsTree")
	if !t.IsValid() || !t.CanInterface() {
		return nil, false
	}
	return t.Interface(), true
}

func (l loaded) kids() ([]interface{}, bool) {
	var out []interface{}
	if f := l.v.FieldByName("Nodes"); f.IsValid() && f.Kind() == reflect.Slice && f.CanInterface() {
		for i := 0; i < f.Len(); i++ {
			out = append(out, f.Index(i).Interface())
		}
		return out, true
	}
	if f := l.v.FieldByName("Node"); f.IsValid() && f.CanInterface() {
		return append(out, f.Interface()), true
	}
	return nil, false
}

func (l loaded) text(field string) (string, bool) {
	f := l.v.FieldByName(field)
	if !f.IsValid() || f.Kind() != reflect.String {
		return "", false
	}
	return f.String(), true
}

func (l loaded) texts(field string) (map[string]string, bool) {
	f := l.v.FieldByName(field)
	if !f.IsValid() || !f.CanInterface() {
		return nil, false
	}
	m, ok := f.Interface().(map[string]string)
	return m, ok
}

func (l loaded) set(field, val string) bool {
	f := l.v.FieldByName(field)
	if !f.IsValid() || f.Kind() != reflect.String || !f.CanSet() {
		return false
	}
	f.SetString(val)
	return true
}

// eachCondition visits the conditions of a loaded tree.
func eachCondition(n interface{}, f func(loaded)) {
	l, ok := loadedNode(n)
	if !ok {
		return
	}
	if l.kind == "Condition" {
		f(l)
		return
	}
	kids, _ := l.kids()
	for _, k := range kids {
		eachCondition(k, f)
	}
}
