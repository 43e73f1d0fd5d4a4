package main

// r_users.go: sets of users.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "Paths of every constructor of sets of users and of every method of theirs: each argument is visited and stored under its own name and nothing else is, a union stores each user of each non-nil group, Has is true if and only if every name is found in the map the constructors fill, List returns each value of that map exactly once and sorts them by name in ascending order, and a user made from a name answers that name.", c35)
}

func c35(c *Ctx) {
	c01users(c)
	const pkg = "runtime/authentication/user"
	set := c.P.named(pkg, "Users")
	one := c.P.named(pkg, "User")
	if !c.Check(set != nil && one != nil, "anchor:Users", "user.Users", "-", "the user types were not found") {
		return
	}
	fields := map[string]bool{}
	n := 0
	for _, f := range c.P.Funcs {
		if fnPkgPath(f) != modPath+"/"+pkg || f.Signature.Recv() != nil || f.Parent() != nil || f.Signature.Results().Len() != 1 || f.Signature.Params().Len() != 1 {
			continue
		}
		st, ok := f.Signature.Params().At(0).Type().(*types.Slice)
		if !ok || !types.Identical(f.Signature.Results().At(0).Type(), set) {
			continue
		}
		switch {
		case types.Identical(st.Elem(), types.Typ[types.String]), types.Identical(st.Elem(), one):
			n++
			c.usersFrom(f, types.Identical(st.Elem(), one), fields)
		case types.Identical(st.Elem(), set):
			n++
			c.usersUnion(f, fields)
		}
	}
	c.Check(n >= 3, "constructors", pkg, "-", "%d constructors of sets of users were found", n)
	if !c.Check(len(fields) == 1, "constructors", pkg, "-", "sets of users are kept in %d different places", len(fields)) {
		return
	}
	for _, t := range c.P.implementers(set) {
		if m := c.methodFor(t, "Has"); m != nil && m.Blocks != nil {
			c.usersHas(m, fields)
		}
		if m := c.methodFor(t, "List"); m != nil && m.Blocks != nil {
			c.usersList(m, fields)
		}
	}
	for _, t := range c.P.implementers(one) {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			if m := c.methodFor(t, "GetName"); m != nil {
				recv := mk("param", m.Params[0].Name(), nil)
				for _, p := range c.run(m, Cfg{}) {
					c.Check(p.Outcome == "return" && unconv(deepStrip(p.Ret[0])) == recv, "name", fname(m), p.Pos, "the name of a user made from a name is %v", p.Ret)
				}
			}
		}
	}
}

// setMap: the map of a set that is returned, and the name of its field.
func (c *Ctx) setMap(p *Path, fields map[string]bool) *T {
	r := deepStrip(p.RetDeep[0])
	var m *T
	if r.Op == "obj" {
		for i, n := range strings.Split(r.S, ";")[1:] {
			if i < len(r.A) && contains(r.A[i], r.A[i]) {
				v := deepStrip(r.A[i])
				if v.Op == "new" || strings.HasPrefix(v.S, "make:map") || strings.Contains(v.String(), "make:map") {
					m = v
					fields[n] = true
				}
			}
		}
	}
	return m
}

// entries of a map that was made here.
func entriesOf(p *Path, m *T) map[*T]*T {
	out := map[*T]*T{}
	for k, v := range p.st.mem {
		if k.Op == "mapent" && same(k.A[0], m) {
			out[deepStrip(k.A[1])] = deepStrip(v)
		}
	}
	return out
}

// nameOf: the term is the name of the user.
func nameOf(t, u *T) bool {
	t = deepStrip(t)
	return t.Op == "call" && strings.HasSuffix(t.S, ").GetName") && len(t.A) == 1 && same(t.A[0], u)
}

func (c *Ctx) usersFrom(f *ssa.Function, users bool, fields map[string]bool) {
	arg := mk("param", f.Params[0].Name(), nil)
	for _, p := range c.run(f, Cfg{}) {
		if !c.Check(p.Outcome == "return", "constructors", fname(f), p.Pos, "making a set of users can panic") {
			continue
		}
		m := c.setMap(p, fields)
		idx, done := elems(p.facts, arg)
		if !c.Check(m != nil && done, "constructors", fname(f), p.Pos, "a set is returned before everything given was added: %v", p.RetDeep[0]) {
			continue
		}
		es := entriesOf(p, m)
		for k, v := range es {
			ok := false
			for _, i := range idx {
				e := mkElem(arg, i, nil)
				if users {
					ok = ok || nameOf(k, e) && same(v, e)
				} else {
					ok = ok || unconv(k) == e && unconv(v) == e
				}
			}
			c.Check(ok, "constructors", fname(f), p.Pos, "the set holds %v under the name %v", v, k)
		}
		for _, i := range idx {
			e := mkElem(arg, i, nil)
			ok := false
			for k := range es {
				ok = ok || users && nameOf(k, e) || !users && unconv(k) == e
			}
			for fa, v := range p.facts {
				if v && fa.Op == "mapok" && same(fa.A[0], m) && (users && nameOf(fa.A[1], e) || !users && unconv(deepStrip(fa.A[1])) == e) {
					ok = true // there already
				}
			}
			c.Check(ok, "constructors", fname(f), p.Pos, "%v is missing in the set", e)
		}
	}
}

func (c *Ctx) usersUnion(f *ssa.Function, fields map[string]bool) {
	for _, p := range c.run(f, Cfg{}) {
		if p.Outcome != "return" {
			continue
		}
		m := c.setMap(p, fields)
		if !c.Check(m != nil, "union", fname(f), p.Pos, "a union returns %v", p.RetDeep[0]) {
			continue
		}
		for k, v := range entriesOf(p, m) {
			c.Check(nameOf(k, v), "union", fname(f), p.Pos, "the union holds %v under the name %v", v, k)
		}
	}
}

func (c *Ctx) usersHas(m *ssa.Function, fields map[string]bool) {
	recv := mk("param", m.Params[0].Name(), nil)
	for _, p := range c.run(m, Cfg{}) {
		for fa := range p.facts {
			if fa.Op == "mapok" {
				x := deepStrip(fa.A[0])
				c.Check(x.Op == "field" && fields[x.S] && same(x.A[0], recv), "has", fname(m), p.Pos, "names are looked up in %v", x)
			}
		}
	}
}

func (c *Ctx) usersList(m *ssa.Function, fields map[string]bool) {
	recv := mk("param", m.Params[0].Name(), nil)
	for _, p := range c.run(m, Cfg{}) {
		if !c.Check(p.Outcome == "return", "list", fname(m), p.Pos, "listing users can panic") {
			continue
		}
		list := p.RetDeep[0]
		if r := deepStrip(list); strings.HasPrefix(r.Op, "mslice") && strings.HasPrefix(r.S, "base") {
			// the slice as it was before it was sorted
			for _, e := range p.Events {
				if e.Kind == "call" && len(e.Deep) > 0 && c.sortsByName(e) && evOut(e, 0) != nil && contains(r, evOut(e, 0)) {
					list = e.Deep[0]
				}
			}
		}
		items, ok := listed(list)
		if !c.Check(ok, "list", fname(m), p.Pos, "the users listed are %v", p.RetDeep[0]) {
			continue
		}
		users := map[*T]bool{}
		var set *T
		for _, x := range items {
			x = deepStrip(x)
			switch {
			case x.Op == "rval":
				set = x.A[0]
				users[x.A[1]] = true
			case x.Op == "maplookup" && deepStrip(x.A[1]).Op == "rkey" && same(deepStrip(x.A[1]).A[0], x.A[0]):
				set = x.A[0]
				users[deepStrip(x.A[1]).A[1]] = true
			default:
				c.Check(false, "list", fname(m), p.Pos, "%v is listed", x)
			}
		}
		c.Check(len(users) == len(items), "list", fname(m), p.Pos, "a user is listed twice")
		all := false
		for fa, v := range p.facts {
			if fa.Op == "lt" && !v && fa.A[0].intIs(int64(len(users))) && fa.A[1].Op == "len" {
				x := deepStrip(fa.A[1].A[0])
				all = all || x.Op == "field" && fields[x.S] && same(x.A[0], recv) && (set == nil || same(set, x))
			}
			if fa.Op == "eq" && v && len(users) == 0 && fa.A[0].Op == "len" && fa.A[1].intIs(0) {
				all = true
			}
		}
		c.Check(all, "list", fname(m), p.Pos, "not every user of the set is listed")
		if len(items) < 2 {
			continue
		}
		sorted := false
		for _, e := range p.Events {
			if e.Kind == "call" && c.sortsByName(e) {
				sorted = true
			}
		}
		c.Check(sorted, "list", fname(m), p.Pos, "the users listed are not sorted by their names")
	}
}

// sortsByName: the event sorts names, or users by their names, ascending.
func (c *Ctx) sortsByName(e *Event) bool {
	switch {
	case e.Fn == "sort.Strings" || strings.HasPrefix(e.Fn, "slices.Sort[") || e.Fn == "slices.Sort":
		return true
	case e.Fn == "sort.Sort" || e.Fn == "sort.Stable":
		if e.CallI == nil {
			return false
		}
		mi, ok := e.CallI.Args[0].(*ssa.MakeInterface)
		if !ok {
			return false
		}
		if mi.X.Type().String() == "sort.StringSlice" {
			return true
		}
		m := c.methodFor(mi.X.Type(), "Less")
		return m != nil && c.lessByName(m)
	case e.Fn == "sort.Slice" || e.Fn == "sort.SliceStable":
		if e.CallI == nil {
			return false
		}
		g := closureFn(e.CallI.Args[1])
		return g != nil && c.lessByName(g)
	}
	return false
}

func (c *Ctx) lessByName(less *ssa.Function) bool {
	n := len(less.Params)
	i, j := mk("param", less.Params[n-2].Name(), nil), mk("param", less.Params[n-1].Name(), nil)
	at := func(t, k *T) bool {
		t = deepStrip(t)
		if t.Op == "call" && strings.HasSuffix(t.S, ").GetName") && len(t.A) == 1 {
			t = deepStrip(t.A[0])
		} else if b, ok := t.Typ.(*types.Basic); ok && b.Kind() != types.String {
			return false
		}
		return t.Op == "elem" && t.A[1] == k
	}
	ok := false
	for _, p := range c.run(less, Cfg{NoDevirt: true, Pure: func(n string) bool {
		return strings.HasSuffix(n, ").GetName") || n == "strings.Compare"
	}}) {
		if p.Outcome != "return" {
			return false
		}
		t := deepStrip(p.Ret[0])
		if t.Op != "lt" {
			return false
		}
		a, b := t.A[0], t.A[1]
		if a.Op == "call" && a.S == "strings.Compare" && b.intIs(0) {
			a, b = a.A[len(a.A)-2], a.A[len(a.A)-1]
		}
		if !at(a, i) || !at(b, j) {
			return false
		}
		ok = true
	}
	return ok
}

// listed: the elements of a slice that was filled here.
func listed(t *T) ([]*T, bool) {
	t = deepStrip(t)
	switch t.Op {
	case "nil":
		return nil, true
	case "slicelit":
		return t.A, true
	case "mslice":
		if t.A[0].intIs(0) {
			return nil, true
		}
		if t.S != "" {
			return nil, false
		}
		out := map[int64]*T{}
		for k := 1; k+1 < len(t.A); k += 2 {
			i, ok := t.A[k].intVal()
			if !ok {
				return nil, false
			}
			out[i] = t.A[k+1]
		}
		var l []*T
		for i := int64(0); i < int64(len(out)); i++ {
			if out[i] == nil {
				return nil, false
			}
			l = append(l, out[i])
		}
		return l, true
	case "slice":
		if (t.A[1].isNil() || t.A[1].intIs(0)) && (t.A[2].isNil() || lenEq(t.A[2], t.A[0])) {
			return listed(t.A[0])
		}
	case "append":
		a, ok := listed(t.A[0])
		b, ok2 := listed(t.A[1])
		return append(append([]*T{}, a...), b...), ok && ok2
	}
	return nil, false
}
