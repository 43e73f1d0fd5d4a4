package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnAuthorize = "(runtime/authorization.Authorizer).Authorize"
	fnExec      = "(runtime/statetransition.ExecutionHandler).Exec"
	fnPreExec   = "(runtime/statetransition.PreExecutionHandler).PreExec"
	fnPostExec  = "(runtime/statetransition.PostExecutionHandler).PostExec"
	fnAdmission = "(runtime/statetransition.AdmissionHandler).Validate"
	fnAuthAdm   = "(runtime/authentication.AdmissionHandler).Validate"
	fnPostAuth  = "(runtime/authentication.PostAuthenticationHandler).Exec"
	fnDecodeTx  = "(runtime/authentication.TxDecoder).DecodeTx"
	fnORMCreate = "(runtime/orm.Store).Create"
	fnORMUpdate = "(runtime/orm.Store).Update"
	fnORMDelete = "(runtime/orm.Store).Delete"
)

// ormOpaque: the object store's public operations are events.
func ormOpaque(n string) bool {
	switch n {
	case fnORMCreate, fnORMUpdate, fnORMDelete, "(runtime/orm.Store).Get", "(runtime/orm.Store).List", "(runtime/orm.Store).RegisterObject":
		return true
	}
	return false
}

func isORMWrite(n string) bool { return n == fnORMCreate || n == fnORMUpdate || n == fnORMDelete }

// authFlag finds the switch that turns authorization on: the field that
// Runtime.EnableAuthorization sets to true.
func (c *Ctx) authFlag() string {
	f := c.method("runtime", "Runtime", "EnableAuthorization")
	if f == nil {
		return ""
	}
	ps := c.run(f, Cfg{})
	name := ""
	ok := len(ps) > 0
	for _, p := range ps {
		set := false
		for _, e := range p.Events {
			if e.Kind == "store" && e.Args[0].Op == "faddr" {
				if b, k := e.Args[1].boolVal(); k && b {
					name = e.Args[0].S
					set = true
				}
			}
		}
		ok = ok && set && p.Outcome == "return"
	}
	if name == "" || !ok {
		c.Fail("enable-authorization:(*runtime.Runtime).EnableAuthorization", c.P.pos(f.Pos()), "EnableAuthorization does not switch authorization on")
	}
	return name
}

func (c *Ctx) flagOff(facts map[*T]bool, flag string) bool {
	for f, v := range facts {
		if !v && f.Op == "field" && f.S == flag {
			return true
		}
	}
	return false
}

// authorizedBefore: an Authorize call with the given verb, resource and users
// allowed the request before the event.
func (c *Ctx) authorizedBefore(p *Path, seq int, verb int64, res, users *T) (bool, string) {
	allow, _ := c.P.constInt("runtime/authorization", "DecisionAllow")
	facts := p.factsBefore(seq)
	why := "no authorization decision precedes it"
	for _, e := range p.calls(fnAuthorize) {
		if e.Seq > seq {
			continue
		}
		at := e.Deep[0]
		if v, ok := strip(field(at, "Verb")).intVal(); !ok || v != verb {
			why = "the decision was made for a different verb: " + field(at, "Verb").String()
			continue
		}
		if !same(field(at, "Resource"), res) {
			why = "the decision was made for a different resource: " + field(at, "Resource").String()
			continue
		}
		if !same(field(at, "Users"), users) {
			why = "the decision was made for different users: " + field(at, "Users").String()
			continue
		}
		n, k := isNilIn(facts, e.Res[1])
		if !k || !n {
			why = "the authorizer's error is not checked"
			continue
		}
		d, k := decideIn(facts, mk("eq", "", nil, e.Res[0], mkInt(allow)))
		if !k || !d {
			why = "the decision is not required to be an allow"
			continue
		}
		return true, ""
	}
	return false, why
}

// reachedOnlyFrom: every way to reach f through repository code passes one of
// the given functions. Returns an offending entry point.
func (c *Ctx) reachedOnlyFrom(f *ssa.Function, roots map[*ssa.Function]bool) *ssa.Function {
	cg := c.P.callers()
	seen := map[*ssa.Function]bool{}
	var rec func(x *ssa.Function) *ssa.Function
	rec = func(x *ssa.Function) *ssa.Function {
		if roots[x] || seen[x] {
			return nil
		}
		seen[x] = true
		n := 0
		for y := range cg[x] {
			n++
			if bad := rec(y); bad != nil {
				return bad
			}
		}
		if x.Parent() != nil {
			n++
			if bad := rec(x.Parent()); bad != nil {
				return bad
			}
		}
		// an entry point of its own: exported, or callable through an interface
		if x.Parent() == nil && x.Synthetic == "" && (n == 0 || x.Object() != nil && x.Object().Exported()) {
			if n == 0 && (x.Object() == nil || !x.Object().Exported()) && x.Signature.Recv() == nil && x.Name() != "main" && x.Name() != "init" {
				return nil // dead code
			}
			return x
		}
		return nil
	}
	return rec(f)
}

func (c *Ctx) rootSet(fs ...*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range fs {
		if f != nil {
			m[f] = true
		}
	}
	return m
}

func init() {
	register("C01", "Every path of the runtime's Create, Update, Delete and Deliver is enumerated over SSA (helpers and closures inlined); each object-store write and each pre/exec/post handler call must be preceded on its path by an allow decision for the same verb, object and users, and every reference to those operations in the repository must lie behind these entry points; the module and read-only clients are checked the same way for whose identity they present.", c01)
	register("C02", "The path summaries of InitChain, of the builder and of every store to the authorization switch are enumerated: authorization is on whenever InitChain returns, nothing turns it off, and the authorizer installed is the one a module declares.", c02)
	register("C03", "All paths of the registered authorizer are enumerated; a path that allows must carry a membership fact whose set is made only of the role resources for the requested verb of roles bound to the request's users, and a path that denies must carry a failed read or the negated fact over all users; the verb/field tables of the role type are extracted per verb and compared.", c03)
}

func c01(c *Ctx) {
	flag := c.authFlag()
	rt := func(n string) *ssa.Function { return c.method("runtime", "Runtime", n) }
	verbs := map[string]string{"Create": "Verb_Create", "Update": "Verb_Update", "Delete": "Verb_Delete"}
	orm := map[string]string{"Create": fnORMCreate, "Update": fnORMUpdate, "Delete": fnORMDelete}
	var roots []*ssa.Function
	for _, n := range []string{"Create", "Update", "Delete"} {
		f := rt(n)
		roots = append(roots, f)
		if f == nil {
			continue
		}
		v, ok := c.P.constInt("core/runtime/v1alpha1", verbs[n])
		if !ok {
			c.Fail("anchor:"+verbs[n], "-", "verb constant %s not found", verbs[n])
			continue
		}
		ps := c.run(f, Cfg{Opaque: ormOpaque})
		users, obj := mk("param", f.Params[1].Name(), nil), mk("param", f.Params[2].Name(), nil)
		granted := false
		for _, p := range ps {
			off := c.flagOff(p.facts, flag)
			nw := 0
			for _, e := range p.Events {
				if !isORMWrite(e.Fn) {
					continue
				}
				nw++
				c.Check(e.Fn == orm[n], "write-kind", fname(f), e.Pos, "%s performs %s on the store", fname(f), e.Fn)
				c.Check(same(e.Args[1], obj), "write-object", fname(f), e.Pos, "%s writes %v, not the object it was asked to write", fname(f), e.Args[1])
				if off {
					continue
				}
				ok, why := c.authorizedBefore(p, e.Seq, v, obj, users)
				c.Check(ok, "authorized", fname(f)+"→"+e.Fn, e.Pos, "%s reaches %s although %s", fname(f), e.Fn, why)
				granted = granted || ok
			}
			if sf, ok := p.success(); ok {
				c.Check(nw == 1, "success-writes-once", fname(f), p.Pos, "%s can report success after %d store operations", fname(f), nw)
				for _, e := range p.Events {
					if isORMWrite(e.Fn) {
						c.Check(e.okIn(sf), "error-reported", fname(f)+"→"+e.Fn, p.Pos, "%s can report success although %s failed", fname(f), e.Fn)
					}
				}
			}
		}
		c.Check(granted, "grant-reachable", fname(f), c.P.pos(f.Pos()), "%s never writes under an allow decision", fname(f))
	}
	if f := rt("Deliver"); f != nil {
		roots = append(roots, f)
		v, _ := c.P.constInt("core/runtime/v1alpha1", "Verb_Deliver")
		users, tr := mk("param", f.Params[1].Name(), nil), mk("param", f.Params[2].Name(), nil)
		ps := c.run(f, Cfg{Opaque: ormOpaque})
		granted := false
		for _, p := range ps {
			off := c.flagOff(p.facts, flag)
			n := 0
			for _, e := range p.Events {
				switch e.Fn {
				case fnExec, fnPreExec, fnPostExec:
				default:
					continue
				}
				if e.Fn == fnExec {
					n++
				}
				c.Check(same(field(e.Deep[0], "Users"), users), "handler-users", fname(f)+"→"+e.Fn, e.Pos, "%s hands the handler users %v instead of the users it authorized", fname(f), field(e.Deep[0], "Users"))
				c.Check(same(field(e.Deep[0], "Transition"), tr), "handler-transition", fname(f)+"→"+e.Fn, e.Pos, "%s hands the handler %v instead of the transition it authorized", fname(f), field(e.Deep[0], "Transition"))
				if off {
					continue
				}
				ok, why := c.authorizedBefore(p, e.Seq, v, tr, users)
				c.Check(ok, "authorized", fname(f)+"→"+e.Fn, e.Pos, "%s reaches %s although %s", fname(f), e.Fn, why)
				granted = granted || ok
			}
			if _, ok := p.success(); ok {
				c.Check(n == 1, "success-executes-once", fname(f), p.Pos, "%s can report success after executing the transition %d times", fname(f), n)
			}
		}
		c.Check(granted, "grant-reachable", fname(f), c.P.pos(f.Pos()), "%s never executes under an allow decision", fname(f))
	}
	// InitGenesis and the DeliverTx loop go through the same delivery function
	genesis := rt("InitGenesis")
	rs := c.rootSet(roots...)
	allowed := c.rootSet(append(roots, genesis)...)
	// (3) who can reach the guarded operations at all
	for _, cs := range c.P.callSites(func(n string) bool {
		return isORMWrite(n) || n == fnExec || n == fnPreExec || n == fnPostExec
	}) {
		n := callName(cs.Call.Common())
		if strings.HasPrefix(fname(outer(cs.In)), "(runtime/orm.") {
			continue
		}
		var bad *ssa.Function
		if isORMWrite(n) {
			bad = c.reachedOnlyFrom(cs.In, rs)
		} else {
			bad = c.reachedOnlyFrom(cs.In, allowed)
		}
		if bad != nil {
			c.Check(false, "only-through-runtime", fname(outer(cs.In))+"→"+n, c.P.pos(cs.Call.Pos()), "%s calls %s and is reachable from %s without passing the runtime's authorization", fname(outer(cs.In)), n, fname(bad))
		} else {
			c.Check(true, "only-through-runtime", fname(outer(cs.In))+"→"+n, "", "")
		}
	}
	// the store may not be hidden behind an interface with write methods
	ormT := c.P.named("runtime/orm", "Store")
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || ormT == nil {
					continue
				}
				if !types.Identical(derefT(mi.X.Type()), ormT) {
					continue
				}
				it := mi.Type().Underlying().(*types.Interface)
				for i := 0; i < it.NumMethods(); i++ {
					n := it.Method(i).Name()
					c.Check(n != "Create" && n != "Update" && n != "Delete", "store-boxed", fname(f), c.P.pos(mi.Pos()), "%s hides the object store behind an interface with %s", fname(f), n)
				}
			}
		}
	}
	// concrete handlers are executed by the runtime only
	for _, h := range c.system().handlers("exec") {
		for caller := range c.P.callers()[h.Fn] {
			if caller.Synthetic != "" {
				continue
			}
			c.Check(false, "handler-called-directly", fname(caller)+"→"+fname(h.Fn), c.P.pos(caller.Pos()), "%s runs handler %s without authorization", fname(caller), fname(h.Fn))
		}
		c.Obl("handler-called-directly")
	}
	// GenesisHandler-time deliveries: InitGenesis delivers as the runtime user
	// through the same function as Deliver.
	// (4) module clients present their own identity
	ci := c.P.named("runtime/client", "Client")
	if ci == nil {
		c.Fail("anchor:client.Client", "-", "client interface not found")
		return
	}
	idField := map[string]string{}
	for _, t := range c.P.implementers(ci) {
		if strings.Contains(shortT(t), "testdata") {
			continue
		}
		uf := ""
		if m := c.methodFor(t, "SetUser"); m != nil && m.Blocks != nil {
			for _, p := range c.run(m, Cfg{}) {
				for _, e := range p.Events {
					if e.Kind == "store" && e.Args[0].Op == "faddr" && same(e.Args[1], mk("param", m.Params[1].Name(), nil)) {
						uf = e.Args[0].S
					}
				}
			}
			c.Check(uf != "", "client-identity", fname(m), c.P.pos(m.Pos()), "%s does not record the identity of the client", fname(m))
			idField[shortT(derefT(t))] = uf
		}
		for _, n := range []string{"Create", "Update", "Delete", "Deliver"} {
			m := c.methodFor(t, n)
			if m == nil || m.Blocks == nil {
				c.Fail("undecided:"+tname(t)+"."+n, "-", "no body for %s.%s", tname(t), n)
				continue
			}
			if forwardsToInterface(m) {
				continue // an embedded client: the embedded value is checked
			}
			union := "runtime/authentication/user.NewUsersUnion"
			ps := c.run(m, Cfg{Opaque: func(x string) bool {
				return strings.HasPrefix(x, "(*runtime.Runtime).") || ormOpaque(x)
			}, Pure: func(x string) bool { return x == union || x == "runtime/authentication/user.NewUsersFromString" }})
			for _, p := range ps {
				k := 0
				for _, e := range p.Events {
					if isORMWrite(e.Fn) {
						c.Check(false, "client-writes", fname(m), e.Pos, "%s writes to the object store directly", fname(m))
					}
					if !strings.HasPrefix(e.Fn, "(*runtime.Runtime).") {
						continue
					}
					op := strings.TrimPrefix(e.Fn, "(*runtime.Runtime).")
					k++
					c.Check(op == n, "client-op", fname(m), e.Pos, "%s performs %s", fname(m), op)
					if len(e.Args) < 3 {
						continue
					}
					own := mk("field", uf, nil, mk("param", m.Params[0].Name(), nil))
					u := deepStrip(e.Args[1])
					ok := u == own
					if n == "Deliver" && !ok && u.Op == "call" && u.S == union {
						ok = contains(u, own)
					}
					c.Check(ok && uf != "", "client-identity", fname(m), e.Pos, "%s acts as %v instead of the identity assigned to the module", fname(m), u)
					c.Check(same(e.Args[2], mk("param", m.Params[1].Name(), nil)), "client-object", fname(m), e.Pos, "%s passes %v instead of its argument", fname(m), e.Args[2])
				}
				if _, ok := p.success(); ok {
					c.Check(k == 1, "client-forwards", fname(m), p.Pos, "%s can report success after %d runtime operations", fname(m), k)
				}
			}
		}
	}
	c.moduleIdentity(idField)
	// users union / constructors keep exactly the given names
	c01users(c)
}

// moduleIdentity: whoever initialises a module leaves it with a client of its
// own that acts as exactly the module's name.
func (c *Ctx) moduleIdentity(idField map[string]string) {
	const init = "(runtime/module.Module).Initialize"
	seen := map[*ssa.Function]bool{}
	for _, cs := range c.P.callSites(func(n string) bool { return n == init }) {
		f := cs.In
		for f.Parent() != nil {
			f = f.Parent()
		}
		if seen[f] || strings.Contains(fnPkgPath(f), "testdata") {
			continue
		}
		seen[f] = true
		// a helper is looked at together with its callers
		for {
			up := c.P.callers()[f]
			if len(up) != 1 || token.IsExported(f.Name()) {
				break
			}
			for g := range up {
				f = g
			}
		}
		n := 0
		for _, p := range c.run(f, Cfg{Pure: func(x string) bool { return x == "runtime/authentication/user.NewUsersFromString" }}) {
			if p.Outcome != "return" {
				continue
			}
			clients := map[*T]bool{}
			for _, e := range p.calls(init) {
				n++
				ct, ptr := boxed(e.Args[0])
				uf := ""
				if ct != nil {
					uf = idField[shortT(derefT(ct))]
				}
				if !c.Check(uf != "" && ptr != nil && strip(ptr).Op == "alloc", "module-identity", fname(f), e.Pos, "a module is handed %v, which is not a new client with an identity of its own", e.Args[0]) {
					continue
				}
				c.Check(!clients[strip(ptr)], "module-identity", fname(f), e.Pos, "two modules share a client")
				clients[strip(ptr)] = true
				u := deepStrip(c.P.engine(Cfg{}).load(p.st, mk("faddr", uf, nil, strip(ptr)), nil))
				name := deepStrip(mkField(e.Res[0], "Name", nil))
				ok := u.Op == "call" && strings.HasSuffix(u.S, "user.NewUsersFromString") && len(u.A) == 1
				if ok {
					l := deepStrip(u.A[0])
					ok = l.Op == "slicelit" && len(l.A) == 1 && same(l.A[0], name)
				}
				c.Check(ok, "module-identity", fname(f), e.Pos, "the client of a module acts as %v instead of the module", u)
			}
		}
		c.Check(n > 0, "module-identity", fname(f), c.P.pos(f.Pos()), "no module is initialised")
	}
	c.Check(len(seen) > 0, "module-identity", "modules", "-", "modules are initialised nowhere")
}

// c01users: NewUsersUnion contains exactly the users of its groups, Has is
// true only if every name is present.
func c01users(c *Ctx) {
	f := c.P.fn("runtime/authentication/user", "NewUsersUnion")
	if f == nil {
		c.Fail("anchor:NewUsersUnion", "-", "NewUsersUnion not found")
		return
	}
	ps := c.run(f, Cfg{})
	groups := mk("param", f.Params[0].Name(), nil)
	for _, p := range ps {
		if p.Outcome != "return" {
			c.Check(false, "users-union", fname(f), p.Pos, "building a union of users can panic")
			continue
		}
		// every stored entry is keyed by the name of a user taken from a group
		gi, done := elems(p.facts, groups)
		c.Check(done, "users-union", fname(f), p.Pos, "the union can be returned before every group was visited")
		added := map[*T]bool{}
		for k, v := range p.st.mem {
			if k.Op != "mapent" {
				continue
			}
			v = deepStrip(v)
			c.Check(contains(v, groups) && contains(k.A[1], v) && k.A[1].Op == "call" && strings.HasSuffix(k.A[1].S, "User).GetName"), "users-union", fname(f), p.Pos, "the union holds user %v under %v", v, k.A[1])
			added[v] = true
		}
		for _, i := range gi {
			g := mkElem(groups, i, nil)
			if n, k := isNilIn(p.facts, g); k && n {
				continue
			}
			list := mk("call", "(runtime/authentication/user.Users).List", nil, g)
			ui, done := elems(p.facts, list)
			if !done {
				// the groups' users are put together first
				for u := range added {
					if u.Op == "elem" && u.A[0].Op == "append" && hasLeaf(u.A[0], list) {
						if ui2, d := elems(p.facts, u.A[0]); d {
							ui, done, list = ui2, true, u.A[0]
							break
						}
					}
				}
				if !done {
					done = lengthZero(p.facts, list)
				}
			}
			c.Check(done, "users-union", fname(f), p.Pos, "a group of users is not added completely")
			for _, j := range ui {
				u := mkElem(list, j, nil)
				dup := false
				for fct, v := range p.facts {
					if v && fct.Op == "mapok" && contains(fct, u) {
						dup = true
					}
				}
				c.Check(added[deepStrip(u)] || dup, "users-union", fname(f), p.Pos, "user %v of a group is not part of the union", u)
			}
		}
	}
	du := c.P.named("runtime/authentication/user", "Users")
	for _, t := range c.P.implementers(du) {
		m := c.methodFor(t, "Has")
		if m == nil || m.Blocks == nil {
			continue
		}
		names := mk("param", m.Params[len(m.Params)-1].Name(), nil)
		for _, p := range c.run(m, Cfg{}) {
			if p.Outcome != "return" {
				c.Check(false, "users-has", fname(m), p.Pos, "Has can panic")
				continue
			}
			b, known := p.Ret[0].boolVal()
			if !known {
				if v, k := decideIn(p.facts, deepStrip(p.Ret[0])); k {
					b, known = v, true
				}
			}
			if known && !b {
				neg := false
				for f, v := range p.facts {
					if !v && f.Op == "mapok" {
						neg = true
					}
				}
				c.Check(neg, "users-has", fname(m), p.Pos, "Has reports false although no name was found missing")
				continue
			}
			idx, done := elems(p.facts, names)
			okAll := done
			for _, i := range idx {
				found := false
				for f, v := range p.facts {
					if v && f.Op == "mapok" && same(f.A[1], mkElem(names, i, nil)) {
						found = true
					}
				}
				if !known && deepStrip(p.Ret[0]).Op == "mapok" && same(deepStrip(p.Ret[0]).A[1], mkElem(names, i, nil)) {
					found = true
				}
				okAll = okAll && found
			}
			c.Check(okAll, "users-has", fname(m), p.Pos, "Has can report true without finding every name")
		}
	}
}

func c02(c *Ctx) {
	flag := c.authFlag()
	if flag == "" {
		return
	}
	// stores to the switch
	rtT := c.P.named("runtime", "Runtime")
	dis := c.P.method("runtime", "Runtime", "DisableAuthorization")
	roots := c.rootSet(dis)
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				st, ok := pt.Underlying().(*types.Struct)
				if !ok || !types.Identical(pt, rtT) || st.Field(fa.Field).Name() != flag {
					continue
				}
				k, isC := s.Val.(*ssa.Const)
				if isC && k.Value != nil && k.Value.String() == "true" {
					c.Check(true, "switch-store", fname(f), "", "")
					continue
				}
				// turning it off: only code that nothing in the repository runs
				bad := ""
				if x := c.reachedOnlyFrom(f, roots); x != nil {
					bad = fname(x)
				}
				if f != dis {
					bad = fname(f)
				}
				c.Check(bad == "", "switch-store", fname(f), c.P.pos(s.Pos()), "authorization can be turned off by %s", bad)
			}
		}
	}
	if dis != nil {
		n := 0
		for caller := range c.P.callers()[dis] {
			if caller.Synthetic == "" {
				n++
				c.Check(false, "never-disabled", fname(caller), c.P.pos(caller.Pos()), "%s turns authorization off", fname(caller))
			}
		}
		c.Obl("never-disabled")
	}
	// InitChain leaves it on
	for _, t := range c.abciApps() {
		f := c.methodFor(t, "InitChain")
		if f == nil || f.Blocks == nil {
			continue
		}
		f = unwrap(c.P, f)
		ps := c.run(f, Cfg{Opaque: func(n string) bool {
			return n == "(*runtime.Runtime).InitGenesis" || n == "(*runtime.Runtime).Import" || n == "(*runtime.Runtime).Deliver"
		}})
		for _, p := range ps {
			if p.Outcome != "return" {
				continue
			}
			on := false
			last := 0
			for _, e := range p.Events {
				if e.Kind == "store" && e.Args[0].Op == "faddr" && e.Args[0].S == flag {
					b, k := e.Args[1].boolVal()
					on = k && b
					last = e.Seq
				}
				if (strings.HasPrefix(e.Fn, "(*runtime.Runtime).") || e.Fn == "dyn") && e.Seq > last {
					_ = e
				}
			}
			c.Check(on, "enabled-after-init", fname(f), p.Pos, "%s can return with authorization off", fname(f))
			gen := false
			for _, e := range p.Events {
				if e.Fn == "(*runtime.Runtime).InitGenesis" || e.Fn == "(*runtime.Runtime).Import" {
					gen = gen || e.okIn(p.facts)
				}
			}
			c.Check(gen, "genesis-before-enable", fname(f), p.Pos, "%s can complete without a successful genesis", fname(f))
		}
	}
	c.builderAuthorizer()
}

// abciApps: the repository types that implement tendermint's Application.
func (c *Ctx) abciApps() []types.Type {
	var out []types.Type
	for _, t := range c.P.repoTypes() {
		for _, x := range []types.Type{t, types.NewPointer(t)} {
			ms := c.P.SSA.MethodSets.MethodSet(x)
			have := map[string]bool{}
			for i := 0; i < ms.Len(); i++ {
				have[ms.At(i).Obj().Name()] = true
			}
			if have["CheckTx"] && have["DeliverTx"] && have["InitChain"] && have["EndBlock"] {
				if m := c.methodFor(x, "InitChain"); strings.Contains(shortT(x), "testdata") || m == nil || c.P.generatedPB(unwrap(c.P, m)) {
					break
				}
				out = append(out, x)
				break
			}
		}
	}
	if len(out) == 0 {
		c.Fail("anchor:abci-application", "-", "no ABCI application type found")
	}
	return out
}

// unwrap follows a synthetic wrapper to the method it forwards to.
func unwrap(p *Prog, f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" {
		return f
	}
	for _, g := range p.Funcs {
		if g.Synthetic == "" && g.Object() != nil && g.Object() == f.Object() {
			return g
		}
	}
	return f
}

// sliceOpaque returns an opacity predicate: a repository function is looked
// into only if it (or something it calls statically) contains an instruction
// that the predicate selects.
func (c *Ctx) sliceOpaque(pred func(f *ssa.Function, in ssa.Instruction) bool) func(*ssa.Function) bool {
	direct := map[*ssa.Function]bool{}
	for _, f := range c.P.allFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(f, in) {
					direct[f] = true
				}
			}
		}
	}
	rel := map[*ssa.Function]bool{}
	cg := c.P.callers()
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if rel[f] {
			return
		}
		rel[f] = true
		for g := range cg[f] {
			mark(g)
		}
		if f.Parent() != nil {
			mark(f.Parent())
		}
	}
	for f := range direct {
		mark(f)
	}
	return func(f *ssa.Function) bool { return !rel[f] }
}

func isPtrTo(t types.Type, e types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && e != nil && types.Identical(p.Elem(), e)
}

func (c *Ctx) builderAuthorizer() {
	f := c.method("runtime", "Builder", "Build")
	az := c.P.named("runtime/authorization", "Authorizer")
	if f == nil || az == nil {
		return
	}
	op := c.sliceOpaque(func(_ *ssa.Function, in ssa.Instruction) bool {
		v, ok := in.(ssa.Value)
		return ok && (isPtrTo(v.Type(), az) || types.Identical(v.Type(), az))
	})
	ps := c.run(f, Cfg{OpaqueFn: op})
	allowT := c.P.named("runtime/authorization", "AlwaysAllowAuthorizer")
	n := 0
	for _, p := range ps {
		facts, ok := p.success()
		if !ok {
			continue
		}
		var val *T
		pos := p.Pos
		for _, e := range p.Events {
			if e.Kind == "store" && e.Args[0].Op == "faddr" && e.Args[0].Typ != nil && isPtrTo(e.Args[0].Typ, az) {
				val, pos = e.Args[1], e.Pos
			}
		}
		n++
		if val == nil {
			c.Check(false, "authorizer-installed", fname(f), p.Pos, "Build can succeed without installing an authorizer")
			continue
		}
		// the module list and the authorizers seen to be present or absent
		present := map[*T]bool{}
		absent := map[*T]bool{}
		for a, v := range facts {
			if a.Op == "eq" && a.A[1].isNil() && a.A[0].Op == "field" && a.A[0].S == "Authorizer" {
				if v {
					absent[a.A[0]] = true
				} else {
					present[a.A[0]] = true
				}
			}
		}
		ct, _ := boxed(val)
		if ct != nil {
			isAllow := allowT != nil && types.Identical(derefT(ct), allowT)
			c.Check(isAllow, "authorizer-installed", fname(f), pos, "Build installs %v as authorizer", val)
			c.Check(len(present) == 0, "allow-all-only-without-authorizer", fname(f), pos, "Build installs the allow-all authorizer although a module declares one")
			// every module was looked at
			col := moduleList(facts)
			if col == nil {
				c.Check(false, "allow-all-only-without-authorizer", fname(f), pos, "Build installs the allow-all authorizer without looking at the modules")
				continue
			}
			idx, done := elems(facts, col)
			for _, i := range idx {
				done = done && absent[mkField(mkElem(col, i, nil), "Authorizer", nil)]
			}
			c.Check(done, "allow-all-only-without-authorizer", fname(f), pos, "Build can install the allow-all authorizer without having examined every module")
			continue
		}
		v := deepStrip(val)
		c.Check(v.Op == "field" && v.S == "Authorizer", "authorizer-installed", fname(f), pos, "Build installs %v as authorizer", val)
		for x := range present {
			c.Check(x == v, "one-authorizer", fname(f), pos, "Build can succeed with two modules declaring an authorizer")
		}
		col := moduleList(facts)
		if col != nil {
			idx, done := elems(facts, col)
			for _, i := range idx {
				a := mkField(mkElem(col, i, nil), "Authorizer", nil)
				done = done && (absent[a] || present[a])
			}
			c.Check(done, "one-authorizer", fname(f), pos, "Build can install an authorizer without having examined every module")
		}
	}
	if n == 0 {
		c.Fail("undecided:authorizer", c.P.pos(f.Pos()), "no successful path of Build found")
	}
}

// moduleList finds the collection of descriptors the path iterates over.
func moduleList(facts map[*T]bool) *T {
	var best *T
	for a := range facts {
		x := findTerm(a, func(t *T) bool {
			return t.Op == "len" && t.A[0].Typ != nil && strings.HasSuffix(shortT(t.A[0].Typ), "[]runtime/module.Descriptor")
		})
		if x != nil && (best == nil || x.A[0].id < best.id) {
			best = x.A[0]
		}
	}
	return best
}

func c03(c *Ctx) {
	resFn := c.method("core/rbac/v1alpha1", "Role", "GetResourcesForVerb")
	if resFn == nil {
		return
	}
	resName := fname(resFn)
	allow, _ := c.P.constInt("runtime/authorization", "DecisionAllow")
	n := 0
	for _, m := range c.system().Mods {
		if m.Auth == nil {
			continue
		}
		n++
		ct, raw := boxed(m.Auth)
		f := c.methodFor(ct, "Authorize")
		if f == nil {
			continue
		}
		st := m.st.clone()
		st.events, st.flist = nil, nil
		at := mk("param", "attributes", f.Params[len(f.Params)-1].Type())
		ps := c.runFrom(st, f, []*T{raw, at}, Cfg{Pure: func(x string) bool { return x == resName }})
		verb, res, users := mkField(at, "Verb", nil), mkField(at, "Resource", nil), mkField(at, "Users", nil)
		list := mk("call", "(runtime/authentication/user.Users).List", nil, users)
		rname := mk("call", "core/meta.Name", nil, res)
		allows := 0
		for _, p := range ps {
			if p.Outcome != "return" {
				c.Check(false, "authorizer-panics", fname(f), p.Pos, "the authorizer can panic")
				continue
			}
			d, known := p.Ret[0].intVal()
			// role terms obtained on this path
			roleOf := map[*T]*T{} // role content term -> user term
			bindOf := map[*T]*T{}
			allGets := true
			for _, e := range p.calls("(runtime/client.Client).Get") {
				if !e.okIn(p.facts) {
					allGets = false
					continue
				}
				id := deepStrip(e.Deep[0])
				idArg := idString(id)
				_, into := boxed(e.Args[1])
				out := mk("out", "Get#"+itoa(e.Seq)+".out1", nil)
				tn := ""
				if into != nil && into.Typ != nil {
					tn = tname(into.Typ)
				}
				switch {
				case strings.HasSuffix(tn, ".RoleBinding") && idArg != nil:
					// GetName(user)
					u := idArg
					if u.Op == "call" && strings.HasSuffix(u.S, "User).GetName") {
						bindOf[out] = u.A[0]
					}
				case strings.HasSuffix(tn, ".Role") && idArg != nil:
					if idArg.Op == "field" && idArg.S == "RoleRef" {
						if u, ok := bindOf[idArg.A[0]]; ok {
							roleOf[out] = u
						}
					}
				}
			}
			pos, neg := membership(p, rname)
			void := false
			for _, mb := range pos {
				void = void || len(setLeaves(p, mb)) == 0
			}
			if void {
				continue // nothing is a member of an empty set: infeasible
			}
			ui, udone := elems(p.facts, list)
			if known && d == allow || !known {
				allows++
				ok := false
				why := "no role resource is compared with the requested resource"
				for _, mb := range pos {
					good := true
					for _, leaf := range setLeaves(p, mb) {
						if leaf.Op != "call" || leaf.S != resName {
							good, why = false, "the resources compared include "+leaf.String()
							break
						}
						if !same(leaf.A[1], verb) {
							good, why = false, "the resources are those of verb "+leaf.A[1].String()+" instead of the requested one"
							break
						}
						u, isRole := roleOf[leaf.A[0]]
						if !isRole {
							good, why = false, "the resources belong to "+leaf.A[0].String()+", which is not a role bound to a requesting user"
							break
						}
						in := false
						for _, i := range ui {
							if same(u, mkElem(list, i, nil)) {
								in = true
							}
						}
						if !in {
							good, why = false, "the role belongs to "+u.String()+", which is not one of the requesting users"
							break
						}
					}
					if len(setLeaves(p, mb)) == 0 {
						good, why = false, "no role contributes to the set"
					}
					ok = ok || good
				}
				if n, k := isNilIn(p.facts, p.Ret[1]); !k || !n {
					ok, why = false, "an error accompanies it"
				}
				c.Check(ok && allGets, "allow-only-with-role", fname(f), p.Pos, "the authorizer can allow a request although %s", why)
				continue
			}
			// deny
			if !allGets {
				c.Check(true, "deny-justified", fname(f), "", "")
				continue
			}
			covered := map[*T]bool{}
			for _, mb := range neg {
				for _, leaf := range setLeaves(p, mb) {
					if leaf.Op == "call" && leaf.S == resName && same(leaf.A[1], verb) {
						if u, ok := roleOf[leaf.A[0]]; ok {
							covered[deepStrip(u)] = true
						}
					}
				}
			}
			ok := udone
			for _, i := range ui {
				ok = ok && covered[deepStrip(mkElem(list, i, nil))]
			}
			c.Check(ok, "deny-justified", fname(f), p.Pos, "the authorizer can deny a request without having looked at the roles of all its users")
		}
		c.Check(allows > 0, "allow-reachable", fname(f), c.P.pos(f.Pos()), "the authorizer never allows a request")
	}
	if n == 0 {
		c.Fail("anchor:authorizer", "-", "no module declares an authorizer")
	}
	c.verbTables(resFn)
}

func itoa(n int) string { return mkInt(int64(n)).String() }

// idString returns the string an object id is made from.
func idString(id *T) *T {
	id = deepStrip(id)
	for id != nil {
		switch {
		case id.Op == "obj" && len(id.A) == 1:
			id = deepStrip(id.A[0])
		case id.Op == "conv":
			id = deepStrip(id.A[0])
		case id.Op == "call" && strings.HasSuffix(id.S, "core/meta.NewStringID"):
			id = deepStrip(id.A[0])
		default:
			return id
		}
	}
	return nil
}

// membership lists the collections that the requested name was found in / not
// found in on this path.
func membership(p *Path, name *T) (pos, neg []*T) {
	name = deepStrip(name)
	add := func(v bool, x *T) {
		if v {
			pos = append(pos, x)
		} else {
			neg = append(neg, x)
		}
	}
	for a, v := range p.facts {
		switch {
		case a.Op == "call" && strings.HasPrefix(a.S, "(*github.com/scylladb/go-set/strset.Set).Has"):
			arg := a.A[1]
			if arg.Op == "slicelit" && len(arg.A) == 1 && deepStrip(arg.A[0]) == name || arg == name {
				add(v, a.A[0])
			}
		case (a.Op == "mapok" || a.Op == "maplookup") && a.A[1] == name:
			add(v, a.A[0])
		case a.Op == "eq" && (a.A[0] == name || a.A[1] == name):
			o := a.A[0]
			if o == name {
				o = a.A[1]
			}
			if o.Op == "elem" {
				if v {
					add(true, o.A[0])
				} else {
					add(false, o.A[0])
				}
			}
		}
	}
	// a loop that compares nothing because the collection is empty
	for a, v := range p.facts {
		sum := (*T)(nil)
		if v && a.Op == "eq" && intEq(a.A[1], 0) {
			sum = a.A[0]
		} else if !v && a.Op == "lt" && intEq(a.A[0], 0) {
			sum = a.A[1]
		}
		if sum != nil && isLenSum(sum) {
			neg = append(neg, lenTerms(sum)...)
		}
	}
	return
}

// lenTerms lists the collections whose lengths a sum adds up.
func lenTerms(t *T) []*T {
	if t.Op == "len" {
		return []*T{t.A[0]}
	}
	var l []*T
	for _, a := range t.A {
		l = append(l, lenTerms(a)...)
	}
	return l
}

// lengthZero: the collection is known to be empty, possibly because a
// concatenation that it is part of is.
func lengthZero(facts map[*T]bool, list *T) bool {
	l := lenOf(list)
	for f, v := range facts {
		if !v || f.Op != "eq" || !isLenSum(f.A[0]) {
			continue
		}
		if n, ok := f.A[1].intVal(); ok && n == 0 && contains(f.A[0], l) {
			return true
		}
	}
	return false
}

// hasLeaf: a concatenation contains the list.
func hasLeaf(t, list *T) bool {
	for _, x := range setLeaves(nil, t) {
		if x == list {
			return true
		}
	}
	return false
}

// setLeaves lists the collections that a set or a concatenation is made of.
//
// The elements of a collection, taken one by one in a loop that visits all of
// them, count as the collection.
func setLeaves(p *Path, t *T) []*T {
	t = deepStrip(t)
	switch t.Op {
	case "append":
		return append(setLeaves(p, t.A[0]), setLeaves(p, t.A[1])...)
	case "nil":
		return nil
	case "slicelit":
		if len(t.A) == 0 || p != nil {
			return itemLeaves(p, t.A)
		}
	case "alloc":
		if p == nil {
			break
		}
		if keys, vals, ok := p.st.knownMap(t); ok {
			for i := len(vals) - 1; i >= 0; i-- {
				if b, k := vals[i].boolVal(); k && !b {
					keys = append(keys[:i:i], keys[i+1:]...)
				}
			}
			return itemLeaves(p, keys)
		}
	case "call":
		if t.S == "github.com/scylladb/go-set/strset.New" {
			return setLeaves(p, t.A[0])
		}
	}
	return []*T{t}
}

func itemLeaves(p *Path, items []*T) (l []*T) {
	seen := map[*T]bool{}
	for _, a := range items {
		a = deepStrip(a)
		if a.Op == "elem" {
			if seen[a.A[0]] {
				continue
			}
			have := map[*T]bool{}
			for _, b := range items {
				have[deepStrip(b)] = true
			}
			idx, done := elems(p.facts, a.A[0])
			for _, i := range idx {
				done = done && have[deepStrip(mkElem(a.A[0], i, nil))]
			}
			if done {
				seen[a.A[0]] = true
				l = append(l, setLeaves(p, a.A[0])...)
				continue
			}
		}
		l = append(l, mk("slicelit", "", nil, a))
	}
	return
}

// verbTables compares, for every verb, the role field that is read for it with
// the one that is extended for it.
func (c *Ctx) verbTables(resFn *ssa.Function) {
	vt := c.P.named("core/runtime/v1alpha1", "Verb")
	ext := c.method("core/rbac/v1alpha1", "Role", "ExtendRaw")
	if vt == nil || ext == nil {
		return
	}
	get := map[int64]string{}
	x := mk("param", resFn.Params[0].Name(), nil)
	vp := mk("param", resFn.Params[1].Name(), nil)
	consts := c.P.constsOf(vt)
	for nm, v := range consts {
		if v == 0 {
			continue
		}
		fieldName := strings.TrimPrefix(nm, "Verb_") + "s"
		st := newState()
		ps := c.runFrom(st, resFn, []*T{mk("param", resFn.Params[0].Name(), resFn.Params[0].Type()), constOf(v, vt)}, Cfg{})
		for _, p := range ps {
			if p.Outcome != "return" {
				continue
			}
			r := deepStrip(p.Ret[0])
			if r.Op == "field" && r.A[0] == x {
				get[v] = r.S
			}
			c.Check(r.Op == "field" && r.A[0] == x && r.S == fieldName, "verb-read-table", nm, p.Pos, "for verb %s the role resources consulted are %v, not the role's %s", nm, r, fieldName)
		}
		// extension
		ps = c.runFrom(newState(), ext, []*T{mk("param", ext.Params[0].Name(), ext.Params[0].Type()), constOf(v, vt), mk("param", "apiDefinition", ext.Params[2].Type())}, Cfg{})
		name := "(*core/meta.APIDefinition).Name"
		okAny := false
		for _, p := range ps {
			var stores []*Event
			for _, e := range p.Events {
				if e.Kind == "store" {
					stores = append(stores, e)
				}
			}
			if _, ok := p.success(); !ok {
				for _, e := range stores {
					c.Check(false, "verb-extend-table", nm, e.Pos, "a failed extension of a role still changes %v", e.Args[0])
				}
				continue
			}
			okAny = true
			good := len(stores) == 1
			for _, e := range stores {
				a, val := e.Args[0], deepStrip(e.Args[1])
				good = good && a.Op == "faddr" && a.S == fieldName && val.Op == "append" &&
					same(val.A[0], mk("field", fieldName, nil, mk("param", ext.Params[0].Name(), nil))) &&
					val.A[1].Op == "slicelit" && len(val.A[1].A) == 1 && val.A[1].A[0].Op == "call" && val.A[1].A[0].S == name
			}
			c.Check(good, "verb-extend-table", nm, p.Pos, "extending a role for verb %s does not append the resource to the role's %s", nm, fieldName)
		}
		c.Check(okAny, "verb-extend-table", nm, c.P.pos(ext.Pos()), "a role cannot be extended for verb %s", nm)
	}
	_ = vp
	c.Check(len(consts) >= 7, "verb-read-table", "verbs", "-", "expected the six verbs, found %d constants", len(consts))
	// unknown verbs grant nothing
	for _, p := range c.run(resFn, Cfg{}) {
		if p.Outcome != "return" {
			continue
		}
		eq := false
		for a, v := range p.facts {
			if v && a.Op == "eq" && a.A[0] == vp && a.A[1].isConst() {
				eq = true
			}
		}
		if !eq {
			r := deepStrip(p.Ret[0])
			c.Check(r.isNil() || r.Op == "slicelit" && len(r.A) == 0, "verb-read-table", "unknown verb", p.Pos, "an unknown verb gives access to %v", r)
		}
	}
}

// forwardsToInterface: a promoted method of an embedded interface.
func forwardsToInterface(m *ssa.Function) bool {
	if m.Synthetic == "" || m.Object() == nil {
		return false
	}
	sig := m.Object().Type().(*types.Signature)
	return sig.Recv() != nil && types.IsInterface(sig.Recv().Type())
}
