package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// T is a provenance term: a hash-consed description of where a value comes
// from (a parameter, a field of another value, the result of a call, ...).
// Two values with the same term are the same value on the path analysed.
type T struct {
	Op  string
	S   string
	A   []*T
	Typ types.Type
	C   constant.Value // for consts
	X   interface{}    // payload (ssa.Function for fn/closure)
	id  int
	key string
}

type terms struct {
	m    map[string]*T
	next int
}

var tt = &terms{m: map[string]*T{}}

func resetTerms() { tt = &terms{m: map[string]*T{}} }

func mk(op, s string, typ types.Type, args ...*T) *T {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	k := b.String()
	if t, ok := tt.m[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	tt.next++
	t := &T{Op: op, S: s, A: args, Typ: typ, id: tt.next, key: k}
	tt.m[k] = t
	return t
}

func mkConst(c constant.Value, typ types.Type) *T {
	if c == nil { // nil or zero
		return mkNil(typ)
	}
	k := c.ExactString()
	// keep the kind so that 0, "0" and false differ; typed ints of different
	// named types with the same value are the same constant
	t := mk("const", fmt.Sprintf("%d:%s", c.Kind(), k), typ)
	t.C = c
	return t
}

func mkNil(typ types.Type) *T { return mk("nil", "", typ) }
func mkInt(n int64) *T        { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkBool(b bool) *T        { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkStr(s string) *T       { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func (t *T) isConst() bool    { return t.Op == "const" }
func (t *T) isNil() bool      { return t.Op == "nil" }
func (t *T) intVal() (int64, bool) {
	if t.Op == "const" && t.C != nil && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *T) boolVal() (bool, bool) {
	if t.Op == "const" && t.C != nil && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}
func (t *T) strVal() (string, bool) {
	if t.Op == "const" && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

func (t *T) String() string { return t.str(0) }

func (t *T) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 14 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.A {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		if t.C != nil {
			return t.C.ExactString()
		}
		return t.S
	case "nil":
		return "nil"
	case "param", "global", "gval":
		return t.S
	case "field":
		return t.A[0].str(d+1) + "." + t.S
	case "faddr":
		return "&" + t.A[0].str(d+1) + "." + t.S
	case "iaddr":
		return "&" + t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + "]"
	case "elem":
		return t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + "]"
	case "alloc":
		return "new#" + t.S
	case "obj":
		fs := strings.Split(t.S, ";")
		name := fs[0]
		var parts []string
		for i, a := range t.A {
			fn := ""
			if i+1 < len(fs) {
				fn = fs[i+1] + ":"
			}
			parts = append(parts, fn+a.str(d+1))
		}
		return shortName(name) + "{" + strings.Join(parts, ", ") + "}"
	case "bin":
		return "(" + t.A[0].str(d+1) + " " + t.S + " " + t.A[1].str(d+1) + ")"
	case "iface", "conv", "deref", "as":
		if t.Op == "as" {
			return t.A[0].str(d+1) + ".(" + shortName(t.S) + ")"
		}
		if t.Op == "conv" {
			return shortName(t.S) + "(" + as() + ")"
		}
		if t.Op == "deref" {
			return "*" + as()
		}
		return as()
	case "call":
		return shortName(t.S) + "(" + as() + ")"
	case "res":
		return t.S
	case "out":
		return t.S
	default:
		return t.Op + ":" + shortName(t.S) + "(" + as() + ")"
	}
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// strip removes wrappers that do not change identity: interface boxing,
// assertions to a type, named-type conversions.
func strip(t *T) *T {
	for t != nil && (t.Op == "iface" || t.Op == "as" || t.Op == "chtype") {
		t = t.A[0]
	}
	return t
}

// same reports whether two terms denote the same value, ignoring boxing.
func same(a, b *T) bool {
	if a == nil || b == nil {
		return a == b
	}
	return collapse(deepStrip(a)) == collapse(deepStrip(b))
}

var stripMemo = map[*T]*T{}

// deepStrip removes boxing everywhere inside a term
func deepStrip(t *T) *T {
	if t == nil {
		return nil
	}
	if r, ok := stripMemo[t]; ok {
		return r
	}
	s := strip(t)
	if len(s.A) > 0 {
		na := make([]*T, len(s.A))
		ch := false
		for i, a := range s.A {
			na[i] = deepStrip(a)
			if na[i] != a {
				ch = true
			}
		}
		if ch {
			n := mk(s.Op, s.S, s.Typ, na...)
			n.C, n.X = s.C, s.X
			s = n
		}
	}
	stripMemo[t] = s
	return s
}

// contains reports whether sub occurs inside t (ignoring boxing).
func contains(t, sub *T) bool {
	return containsR(deepStrip(t), deepStrip(sub), map[*T]bool{})
}

func containsR(t, sub *T, seen map[*T]bool) bool {
	if t == sub {
		return true
	}
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.A {
		if containsR(a, sub, seen) {
			return true
		}
	}
	return false
}

// find returns the first sub-term for which pred holds.
func findTerm(t *T, pred func(*T) bool) *T {
	seen := map[*T]bool{}
	var rec func(*T) *T
	rec = func(x *T) *T {
		if x == nil || seen[x] {
			return nil
		}
		seen[x] = true
		if pred(x) {
			return x
		}
		for _, a := range x.A {
			if r := rec(a); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(t)
}

// objField returns the value of a field in a deep "obj" snapshot.
func objField(o *T, name string) *T {
	o = strip(o)
	if o == nil {
		return nil
	}
	if o.Op == "obj" {
		fs := strings.Split(o.S, ";")
		for i := range o.A {
			if i+1 < len(fs) && fs[i+1] == name {
				return o.A[i]
			}
		}
		return nil
	}
	return mkField(o, name, nil)
}

// objType returns the type name of a deep "obj" snapshot.
func objType(o *T) string {
	o = strip(o)
	if o == nil || o.Op != "obj" {
		return ""
	}
	return strings.Split(o.S, ";")[0]
}

func mkField(base *T, name string, typ types.Type) *T {
	b := base
	if b.Op == "deref" {
		b = b.A[0]
	}
	if b.Op == "iface" || b.Op == "chtype" {
		b = b.A[0]
	}
	if b.Op == "obj" {
		if v := objField(b, name); v != nil {
			return v
		}
	}
	return mk("field", name, typ, b)
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// collapse turns a copy of a struct, field by field, into the struct itself.
func collapse(t *T) *T {
	if t == nil || t.Op != "obj" || len(t.A) == 0 {
		return t
	}
	names := strings.Split(t.S, ";")[1:]
	if len(names) != len(t.A) {
		return t
	}
	var base *T
	for i, a := range t.A {
		a = collapse(a)
		if a.Op != "field" || a.S != names[i] || base != nil && a.A[0] != base {
			return t
		}
		base = a.A[0]
	}
	return base
}
