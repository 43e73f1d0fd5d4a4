package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "Every client option is applied symbolically to a record that holds other settings already, and the record is compared field by field. The reads and deliveries of every client are enumerated path by path: the options applied, the record read afterwards, and the read or delivery made with it. A census asks which settings have no effect.", c21)
}

const (
	fnRtGet     = "(*runtime.Runtime).Get"
	fnRtList    = "(*runtime.Runtime).List"
	fnRtDeliver = "(*runtime.Runtime).Deliver"
	fnOrmGet    = "(runtime/orm.Store).Get"
	fnOrmList   = "(runtime/orm.Store).List"
	fnOrmLoad   = "(runtime/orm.Store).LoadVersion"
	fnOrmLatest = "(runtime/orm.Store).LatestVersion"
	fnUnion     = "runtime/authentication/user.NewUsersUnion"
	fnFromStr   = "runtime/authentication/user.NewUsersFromString"
)

func c21(c *Ctx) {
	ctors := c.optionConstructors()
	ci := c.P.named("runtime/client", "Client")
	if ci == nil {
		c.Fail("anchor:client.Client", "-", "client interface not found")
		return
	}
	for _, t := range c.P.implementers(ci) {
		if strings.Contains(shortT(t), "testdata") {
			continue
		}
		for _, n := range []string{"Get", "List", "Create", "Update", "Delete", "Deliver"} {
			m := c.methodFor(t, n)
			if m == nil || m.Blocks == nil || forwardsToInterface(m) {
				continue
			}
			c.clientMethod(m, n, ctors)
		}
	}
	c.runtimeReads()
	if it := c.P.named("runtime/orm", "Indexer"); it != nil {
		for _, t := range c.P.implementers(it) {
			c.everySetting(t)
		}
	}
}

// ---------------------------------------------------------------- options

type optCtor struct {
	f   *ssa.Function
	rec types.Type
}

// optionConstructors checks every exported function that makes an option; they
// are returned by the name of the option's type.
func (c *Ctx) optionConstructors() map[string][]optCtor {
	out := map[string][]optCtor{}
	var all []optCtor
	for _, f := range c.P.Funcs {
		if !strings.HasSuffix(fnPkgPath(f), "/runtime/client") || f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		n, ok := f.Signature.Results().At(0).Type().(*types.Named)
		if !ok {
			continue
		}
		sig, ok := n.Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 0 {
			continue
		}
		pt, ok := sig.Params().At(0).Type().(*types.Pointer)
		if !ok || !f.Object().Exported() {
			continue
		}
		o := optCtor{f, pt.Elem()}
		out[n.Obj().Name()] = append(out[n.Obj().Name()], o)
		all = append(all, o)
	}
	for _, n := range []string{"GetAtHeight", "ListAtHeight", "ListRange", "ListMatchFieldInterface", "ListMatchFieldString", "DeliverImpersonating"} {
		ok := false
		for _, o := range all {
			ok = ok || o.f.Name() == n
		}
		if !ok {
			c.Fail("anchor:"+n, "-", "the option %s was not found", n)
		}
	}
	for _, o := range all {
		var sibs []optCtor
		for _, l := range out {
			for _, s := range l {
				if types.Identical(s.rec, o.rec) {
					sibs = append(sibs, s)
				}
			}
		}
		c.option(o, sibs)
	}
	return out
}

// makeOption calls a constructor with fresh arguments.
func (c *Ctx) makeOption(st *state, o optCtor, tag string) (after *state, opt *T, args []*T, ok bool) {
	for _, p := range o.f.Params {
		args = append(args, mk("param", p.Name()+tag, p.Type()))
	}
	ps := c.runFrom(st, o.f, args, optCfg())
	if len(ps) != 1 || ps[0].Outcome != "return" {
		return st, nil, args, false
	}
	st = ps[0].st.clone()
	st.frames = nil
	return st, ps[0].Ret[0], args, true
}

// option: applied to a record on which every option of its kind was applied
// before, it changes its own setting only.
func (c *Ctx) option(o optCtor, sibs []optCtor) {
	name := fname(o.f)
	pos := c.P.pos(o.f.Pos())
	var before []*T
	st := newState()
	for _, s := range sibs {
		var t *T
		var ok bool
		st, t, _, ok = c.makeOption(st, s, "_0")
		if !ok {
			c.Check(false, "option-made", fname(s.f), c.P.pos(s.f.Pos()), "making the option does more than making it")
			return
		}
		before = append(before, t)
	}
	st, x, args, ok := c.makeOption(st, o, "_1")
	if !c.Check(ok, "option-made", name, pos, "making the option does more than making it") {
		return
	}
	rec := c.pureOpts(st, before, o.rec)
	rec1 := c.pureOpts(st, append(append([]*T{}, before...), x), o.rec)
	if !c.Check(rec != nil && rec1 != nil, "option-applied", name, pos, "the option does not simply set the settings") {
		return
	}
	was, is := map[string]*T{}, map[string]*T{}
	settings("", rec, was)
	settings("", rec1, is)
	set := map[string]func(w, g *T) bool{}
	eq := func(v *T) func(w, g *T) bool { return func(_, g *T) bool { return same(unconv(g), unconv(v)) } }
	add := func(w, g *T) bool {
		a, b := flatList(w), flatList(g)
		if len(a) == 0 || len(b) != len(a)+1 {
			return false
		}
		for i := range a {
			if !same(a[i], b[i]) {
				return false
			}
		}
		n := b[len(a)]
		return same(unconv(field(n, "Field")), unconv(args[0])) && same(unconv(field(n, "Value")), unconv(args[1]))
	}
	switch o.f.Name() {
	case "GetAtHeight", "ListAtHeight":
		set["Height"] = eq(args[0])
	case "ListRange":
		set["ORMOptions.Start"], set["ORMOptions.End"] = eq(args[0]), eq(args[1])
	case "ListMatchFieldInterface":
		set["ORMOptions.MatchFieldInterface"] = add
	case "ListMatchFieldString":
		set["ORMOptions.MatchFieldString"] = add
	case "DeliverImpersonating":
		set["Impersonate"] = func(_, g *T) bool {
			g = unconv(deepStrip(g))
			return g.Op == "call" && g.S == fnFromStr && len(g.A) == 1 && same(g.A[0], args[0])
		}
	case "UpdateCreateIfNotExists":
		set["createIfNotExists"] = func(_, g *T) bool { b, k := g.boolVal(); return k && b }
	default:
		return // an option this property does not name
	}
	for n := range set {
		if is[n] == nil {
			c.Check(false, "option-sets", name, pos, "the setting %s does not exist", n)
		}
	}
	var ns []string
	for n := range is {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if f := set[n]; f != nil {
			c.Check(f(was[n], is[n]), "option-sets", name, pos, "the option turns %s from %v into %v", n, was[n], is[n])
		} else {
			c.Check(was[n] != nil && same(was[n], is[n]), "option-only", name, pos, "the option changes %s from %v to %v", n, was[n], is[n])
		}
	}
}

func optCfg() Cfg {
	return Cfg{Pure: func(x string) bool { return x == fnUnion || x == fnFromStr }}
}

// settings lists the leaves of an option record.
func settings(at string, t *T, out map[string]*T) {
	s := deepStrip(t)
	if s.Op == "obj" {
		fs := strings.Split(s.S, ";")[1:]
		if len(fs) == len(s.A) {
			for i, n := range fs {
				k := n
				if at != "" {
					k = at + "." + n
				}
				settings(k, s.A[i], out)
			}
			return
		}
	}
	out[at] = s
}

// pureOpts applies options to an empty record with the users' constructors kept
// as calls.
func (c *Ctx) pureOpts(st *state, opts []*T, rec types.Type) *T {
	cfg := optCfg()
	e := c.P.engine(cfg)
	st = st.clone()
	a := e.newAlloc(st, "options "+rec.String(), types.NewPointer(rec))
	for _, o := range opts {
		f, bound, free := c.target(o)
		if f == nil || f.Blocks == nil {
			return nil
		}
		ps := c.runClosure(st, f, append(append([]*T{}, bound...), a), free, cfg)
		if len(ps) != 1 || ps[0].Outcome != "return" {
			return nil
		}
		st = ps[0].st.clone()
		st.frames = nil
	}
	return e.deep(st, a)
}

// ---------------------------------------------------------------- clients

// applied: the options are called one after the other, in order, on one record
// that starts out empty. The record after the last one is returned.
func (c *Ctx) applied(p *Path, m *ssa.Function, opts *T, upTo int) *T {
	idx, done := elems(p.facts, opts)
	if !c.Check(done && inOrder(p.facts, idx), "options-all", fname(m), p.Pos, "the read or delivery is made before every option was looked at") {
		return nil
	}
	var rec *T
	k := 0
	for _, e := range p.calls("dyn") {
		r := deepStrip(e.Recv)
		if r.Op != "elem" || r.A[0] != opts {
			continue
		}
		if !c.Check(e.Seq < upTo && k < len(idx) && same(r.A[1], idx[k]) && len(e.Args) == 1, "options-all", fname(m), e.Pos, "the options are not applied once each, in order") {
			return nil
		}
		if k == 0 {
			z := deepStrip(e.Deep[0])
			pt, ok := e.CallI.Signature().Params().At(0).Type().(*types.Pointer)
			c.Check(ok && z.String() == deepStrip(zero(pt.Elem())).String(), "options-empty", fname(m), e.Pos, "the options are applied to %v instead of an empty record", z)
		} else {
			c.Check(deepStrip(e.Deep[0]) == rec, "options-one-record", fname(m), e.Pos, "the options are applied to different records")
		}
		rec = evOut(e, 0)
		k++
	}
	if !c.Check(k == len(idx), "options-all", fname(m), p.Pos, "%d of %d options are applied", k, len(idx)) {
		return nil
	}
	if rec == nil {
		pt := m.Signature.Params().At(m.Signature.Params().Len() - 1).Type().(*types.Slice).Elem().Underlying().(*types.Signature).Params().At(0).Type().(*types.Pointer)
		rec = zero(pt.Elem())
	}
	return rec
}

// zeroIn: the number is known to be zero, or known not to be.
func zeroIn(facts map[*T]bool, x *T) (isZero, known bool) {
	x = deepStrip(x)
	if n, ok := x.intVal(); ok {
		return n == 0, true
	}
	return decideIn(facts, mk("eq", "", nil, x, mkInt(0)))
}

func (c *Ctx) clientMethod(m *ssa.Function, op string, ctors map[string][]optCtor) {
	a := c.params(m)
	opts := a[len(a)-1]
	name := fname(m)
	rt := false // the client of a module, acting on the runtime
	opaque := func(x string) bool {
		return strings.HasPrefix(x, "(*runtime.Runtime).") || strings.HasPrefix(x, "(runtime/orm.Store).") || strings.HasPrefix(x, "(*runtime/orm.Store).")
	}
	cfg := Cfg{Opaque: opaque, Pure: func(x string) bool { return x == fnUnion || x == fnFromStr }}
	ps := c.run(m, cfg)
	for _, p := range ps {
		for _, e := range p.Events {
			rt = rt || strings.HasPrefix(e.Fn, "(*runtime.Runtime).")
		}
	}
	optT := ""
	if sl, ok := m.Signature.Params().At(m.Signature.Params().Len() - 1).Type().(*types.Slice); ok {
		if n, ok := sl.Elem().(*types.Named); ok {
			optT = n.Obj().Name()
		}
	}
	answered := false
	for _, p := range ps {
		if p.Outcome != "return" {
			c.Check(false, "client-panics", name, p.Pos, "the client can panic")
			continue
		}
		var read, load *Event
		n := 0
		for _, e := range p.Events {
			switch e.Fn {
			case fnRtGet, fnRtList, fnRtDeliver, fnOrmGet, fnOrmList:
				read = e
				n++
			case fnOrmLoad:
				load = e
			}
			if e.Kind == "store" {
				c.Check(!contains(e.Args[0], a[0]), "client-unchanged", name, e.Pos, "the client itself is changed by the call: %v", e.Args[0])
			}
			if strings.HasPrefix(e.Fn, "(runtime/orm.Store).") && isORMWrite(e.Fn) {
				c.Check(false, "store-client-writes", name, e.Pos, "the client changes the store")
			}
		}
		if !rt && (op == "Create" || op == "Update" || op == "Delete" || op == "Deliver") {
			_, ok := p.success()
			c.Check(!ok, "store-client-refuses", name, p.Pos, "%s of a client that only reads the store reports success", op)
			continue
		}
		if op != "Get" && op != "List" && op != "Deliver" {
			continue
		}
		if !c.Check(n <= 1, "one-operation", name, p.Pos, "%d operations are made for one call", n) {
			continue
		}
		if read == nil {
			_, ok := p.success()
			if !c.Check(!ok, "answers", name, p.Pos, "the call succeeds without being carried out") {
				continue
			}
			// why it was refused
			if load != nil && load.failedIn(p.facts) {
				c.Check(wrapsValue(p.errRet(), load.Res[len(load.Res)-1]), "load-error", name, p.Pos, "the failure to load the version is not the one returned")
				continue
			}
			h := heightOf(p, opts)
			z, k := false, false
			if h != nil {
				z, k = zeroIn(p.facts, h)
			}
			c.Check(rt && k && !z, "refused", name, p.Pos, "the call is refused although no height was given and nothing failed")
			continue
		}
		answered = true
		rec := c.applied(p, m, opts, read.Seq)
		if rec == nil {
			continue
		}
		recv, rest := read.Args[0], read.Deep[1:]
		// its answer is the answer
		for i := range p.Ret {
			v := p.Ret[i]
			ok := same(v, read.Res[i])
			if !ok && i == len(p.Ret)-1 && wrapsValue(v, read.Res[i]) {
				ok = true
			}
			if !ok && read.failedIn(p.facts) && i < len(p.Ret)-1 {
				ok = true
			}
			if !ok && read.okIn(p.facts) && i == len(p.Ret)-1 {
				ok = p.Ret[i].isNil()
			}
			c.Check(ok, "answer", name, p.Pos, "the client returns %v instead of the answer %v", v, read.Res[i])
		}
		if op == "Deliver" {
			own := findTerm(rest[0], func(x *T) bool { return x.Op == "field" && x.A[0] == a[0] })
			imp := field(rec, "Impersonate")
			u := unconv(deepStrip(rest[0]))
			ok := own != nil
			if u.Op == "call" && u.S == fnUnion {
				gs := map[*T]bool{}
				for _, g := range flatList(u.A[0]) {
					gs[deepStrip(g)] = true
				}
				delete(gs, mkNil(nil))
				n, k := isNilIn(p.facts, imp)
				has := imp != nil && gs[deepStrip(imp)]
				for g := range gs {
					ok = ok && (g == own || g == deepStrip(imp) || g.isNil())
				}
				ok = ok && gs[own] && (has || k && n)
			} else {
				n, k := isNilIn(p.facts, imp)
				ok = ok && u == own && k && n
			}
			c.Check(ok, "impersonate", name, read.Pos, "the delivery is made as %v instead of the module's users and those impersonated", u)
			c.Check(same(rest[1], a[1]), "delivered", name, read.Pos, "%v is delivered instead of the transition given", rest[1])
			continue
		}
		if rt {
			if op == "Deliver" {
				continue
			}
			z, k := zeroIn(p.facts, field(rec, "Height"))
			c.Check(k && z, "heighted", name, read.Pos, "a module's client reads the current state although a height can have been asked for")
		} else {
			if !c.Check(load != nil && load.okIn(p.facts) && load.Seq < read.Seq, "load", name, read.Pos, "the store is read without loading a version") {
				continue
			}
			c.Check(same(recv, load.Res[0]), "load-used", name, read.Pos, "the store read is %v instead of the version loaded", recv)
			want := field(rec, "Height")
			if z, k := zeroIn(p.facts, want); c.Check(k, "load-version", name, load.Pos, "a version is loaded without looking at whether a height was given") && z {
				want = nil
				for _, e := range p.calls(fnOrmLatest) {
					if same(e.Args[0], load.Args[0]) && same(e.Res[0], load.Args[1]) {
						want = deepStrip(e.Res[0])
					}
				}
			}
			c.Check(want != nil && same(load.Args[1], want), "load-version", name, load.Pos, "version %v is loaded", load.Args[1])
			st := deepStrip(load.Args[0])
			c.Check(st.Op == "field" && st.A[0] == a[0], "load-store", name, load.Pos, "a version of %v is loaded", st)
		}
		if op == "Get" {
			c.Check(same(rest[0], a[1]) && same(read.Args[2], a[2]), "read-what", name, read.Pos, "%v is read into %v instead of what was asked for", rest[0], read.Args[2])
		} else {
			c.Check(same(read.Args[1], a[1]), "read-what", name, read.Pos, "%v is listed instead of what was asked for", read.Args[1])
			w, g := map[string]*T{}, map[string]*T{}
			settings("", field(rec, "ORMOptions"), w)
			settings("", rest[1], g)
			okAll := same(rest[1], field(rec, "ORMOptions")) || len(w) > 0 && len(w) == len(g)
			for n, v := range w {
				okAll = okAll && (g[n] != nil && same(v, g[n]) || n == "" && same(rest[1], field(rec, "ORMOptions")))
			}
			c.Check(okAll, "list-options", name, read.Pos, "the listing is made with %v instead of the options given", rest[1])
		}
	}
	if rt || op == "Get" || op == "List" {
		if op == "Get" || op == "List" || op == "Deliver" {
			c.Check(answered, "answers", name, c.P.pos(m.Pos()), "the call never succeeds")
		}
		if rt && len(ctors[optT]) > 0 {
			// options of this kind exist: they are applied
			any := false
			for _, p := range ps {
				for _, e := range p.calls("dyn") {
					r := deepStrip(e.Recv)
					any = any || r.Op == "elem" && r.A[0] == opts
				}
			}
			c.Check(any, "options-ignored", name, c.P.pos(m.Pos()), "the options given are ignored")
		}
	}
}

// heightOf is the height asked for on a path, wherever it was looked at.
func heightOf(p *Path, opts *T) *T {
	var out *T
	for f := range p.facts {
		x := findTerm(f, func(x *T) bool { return x.Op == "field" && x.S == "Height" && x.A[0].Op == "out" })
		if x == nil {
			continue
		}
		for _, e := range p.calls("dyn") {
			if r := deepStrip(e.Recv); evOut(e, 0) == x.A[0] && r.Op == "elem" && r.A[0] == opts {
				if z, k := zeroIn(p.facts, x); k && !z || out == nil {
					out = x
				}
			}
		}
	}
	return out
}

// runtimeReads: the runtime reads from its store what it was asked for.
func (c *Ctx) runtimeReads() {
	for _, op := range []string{"Get", "List"} {
		m := c.method("runtime", "Runtime", op)
		if m == nil {
			continue
		}
		a := c.params(m)
		okAny := false
		for _, p := range c.run(m, Cfg{Opaque: ormOpaque}) {
			if _, ok := p.success(); !ok || p.Outcome != "return" {
				continue
			}
			okAny = true
			rs := p.callsAny(fnOrmGet, fnOrmList)
			if !c.Check(len(rs) == 1 && rs[0].Fn == "(runtime/orm.Store)."+op, "runtime-read", fname(m), p.Pos, "a read succeeds after %d reads of the store", len(rs)) {
				continue
			}
			r := rs[0]
			for i := 1; i < len(a); i++ {
				c.Check(same(r.Args[i], a[i]) || same(r.Deep[i], a[i]), "runtime-read", fname(m), r.Pos, "the store is read with %v instead of %v", r.Deep[i], a[i])
			}
			s := deepStrip(r.Deep[0])
			c.Check(s.Op == "field" && s.A[0] == a[0] || same(r.Args[0], a[0]), "runtime-read", fname(m), r.Pos, "%v is read instead of the runtime's store", r.Args[0])
			if op == "List" {
				c.Check(same(p.Ret[0], r.Res[0]), "runtime-read", fname(m), p.Pos, "the runtime returns %v instead of the store's answer", p.Ret[0])
			}
		}
		c.Check(okAny, "runtime-read", fname(m), c.P.pos(m.Pos()), "reading never succeeds")
	}
}

// everySetting: whatever a listing asks for has an effect on the keys listed.
func (c *Ctx) everySetting(t types.Type) {
	f := c.methodFor(t, "List")
	if f == nil || f.Blocks == nil {
		return
	}
	a := c.params(f)
	opts := a[2]
	name := fname(f)
	rangeUsed, unfiltered := false, false
	for _, p := range c.run(f, Cfg{}) {
		facts, ok := p.success()
		if !ok || p.Outcome != "return" {
			continue
		}
		uses := func(match func(x *T) bool) bool {
			for _, e := range p.Events {
				if !strings.HasPrefix(e.Fn, "(runtime/kv.") {
					continue
				}
				for _, d := range append(append([]*T{}, e.Args...), e.Deep...) {
					if findTerm(d, match) != nil {
						return true
					}
				}
			}
			return false
		}
		n, nUsed := 0, 0
		for _, k := range []string{"MatchFieldInterface", "MatchFieldString"} {
			col := mk("field", k, nil, opts)
			idx, _ := elems(facts, col)
			n += len(idx)
			for _, i := range idx {
				el := mkElem(col, i, nil)
				used := uses(func(x *T) bool {
					if x == el {
						return true
					}
					if x.Op == "res" {
						if e := p.eventOf(x); e != nil {
							for _, d := range e.Deep {
								if contains(d, el) {
									return true
								}
							}
						}
					}
					return false
				})
				if used {
					nUsed++
				}
			}
		}
		c.Check(n == 0 || nUsed > 0, "filter-ignored", name, p.Pos, "a listing succeeds in which no condition given has an effect")
		c.Check(nUsed == 0 || nUsed == n, "more-filters-ignored", name, p.Pos, "a listing succeeds in which %d of %d conditions have an effect", nUsed, n)
		unfiltered = unfiltered || n == 0
		for _, k := range []string{"Start", "End"} {
			fl := mk("field", k, nil, opts)
			for x := range p.facts {
				rangeUsed = rangeUsed || contains(x, fl)
			}
			rangeUsed = rangeUsed || uses(func(x *T) bool { return x == fl })
		}
	}
	c.Check(rangeUsed, "range-ignored", name, c.P.pos(f.Pos()), "the range of a listing has no effect")
	c.Check(unfiltered, "unfiltered-refused", name, c.P.pos(f.Pos()), "a listing without a condition never succeeds")
}
