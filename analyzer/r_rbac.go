package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "The handler that creates the initial roles is enumerated for an arbitrary module with an arbitrary state transition, object and dependency: the module's role must be extended with exactly the right (verb, resource) pairs, created and bound to the module's name; the external role gets a transition only under the fact that its access control option is external. Role creation, role binding and account creation are enumerated the same way.", c04)
}

const fnExtendRaw = "(*core/rbac/v1alpha1.Role).ExtendRaw"

// delivered returns the message given to a client's Deliver.
func delivered(e *Event) (string, *T) {
	if e.Fn != fnClientDlv || len(e.Deep) == 0 {
		return "", nil
	}
	d := e.Deep[0]
	if t, _ := boxed(e.Args[0]); t != nil {
		return tname(t), d
	}
	return objType(d), d
}

func c04(c *Ctx) {
	s := c.system()
	n := 0
	for _, h := range s.handlersFor("postexec", "core/runtime/v1alpha1.CreateModuleDescriptors") {
		n++
		c.initialRoles(h)
	}
	c.Check(n > 0, "roles-created-at-genesis", "CreateModuleDescriptors", "-", "no module creates the initial roles when the module descriptors are created")
	c.roleAdmission()
	c.roleExec()
	c.aclLookup()
	c.accountRole()
}

func (c *Ctx) returnsACL(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if strings.HasSuffix(shortT(rs.At(i).Type()), "xt.StateTransitionAccessControl") {
			return f.Pkg != nil && inRepoFn(f) && !c.P.generatedPB(f)
		}
	}
	return false
}

func (c *Ctx) initialRoles(h *Handler) {
	verbs := map[int64]string{}
	vt := c.P.named("core/runtime/v1alpha1", "Verb")
	for nm, v := range c.P.constsOf(vt) {
		verbs[v] = nm
	}
	vDeliver, _ := c.P.constInt("core/runtime/v1alpha1", "Verb_Deliver")
	apiST, _ := c.P.constInt("core/meta", "APIType_StateTransition")
	extID, _ := c.P.constStr("core/rbac/v1alpha1", "ExternalAccountRoleID")
	cfg := Cfg{Generic: true, LoopK: 1, Opaque: func(n string) bool { return n == fnExtendRaw }, OpaqueFn: c.returnsACL}
	ps, _, msg := c.runHandler(h, cfg)
	c.rolesOfAll(h, cfg, vDeliver, extID, apiST)
	f := h.Fn
	mods := mkField(msg, "Modules", nil)
	full := map[string]bool{}
	for _, p := range ps {
		facts, ok := p.success()
		if p.Outcome != "return" || !ok {
			if p.Outcome == "panic" {
				c.Check(false, "no-panic", fname(f), p.Pos, "creating the initial roles can panic at %s", p.Pos)
			}
			continue
		}
		// every call on the path succeeded
		for _, e := range p.Events {
			if e.Kind == "call" && (e.Fn == fnExtendRaw || e.Fn == fnClientDlv || strings.Contains(e.Fn, "getACL")) {
				c.Check(e.okIn(facts), "errors-reported", fname(f)+"→"+e.Fn, e.Pos, "creating the initial roles succeeds although %s may have failed", e.Fn)
			}
		}
		type grant struct {
			verb int64
			res  *T
		}
		roles := map[*T][]grant{}
		id := map[*T]*T{}
		var order []*T
		note := func(r, deep *T) {
			if id[r] == nil {
				id[r] = field(deep, "Id")
				order = append(order, r)
			}
		}
		createdAt := map[*T]*Event{}
		for _, e := range p.Events {
			switch {
			case e.Fn == fnExtendRaw:
				r := strip(e.Args[0])
				note(r, e.Deep[0])
				v, known := e.Args[1].intVal()
				if !known {
					v = -1
				}
				roles[r] = append(roles[r], grant{v, deepStrip(e.Args[2])})
				if ce := createdAt[r]; ce != nil {
					c.Check(false, "complete-before-creation", fname(f), e.Pos, "the role is extended after it has been stored, so the stored role lacks the resource")
				}
			case e.Fn == fnClientDlv:
				mt, d := delivered(e)
				if strings.HasSuffix(mt, ".MsgCreateRole") {
					_, raw := boxed(e.Args[0])
					nr := strip(c.P.engine(Cfg{}).load(p.st, mk("faddr", "NewRole", nil, raw), nil))
					note(nr, field(d, "NewRole"))
					createdAt[nr] = e
				}
			}
		}
		// direct stores to role fields
		for k := range p.st.mem {
			if k.Op == "faddr" && k.A[0].Op == "alloc" && strings.HasSuffix(tname(derefT(k.A[0].Typ)), "core/rbac/v1alpha1.Role") && k.S != "Id" {
				if v := p.st.mem[k]; v != nil && !v.isNil() && v.Op != "out" && v.Op != "field" && !(v.Op == "slicelit" && len(v.A) == 0) {
					c.Check(false, "role-extended-by-verb", fname(f), p.Pos, "a role's %s is set to %v directly", k.S, v)
				}
			}
		}
		idx, done := elems(facts, mods)
		c.Check(done, "every-module", fname(f), p.Pos, "success is possible without a role for every module")
		var ext *T
		modRole := map[*T]*T{}
		for _, r := range order {
			if strEq(id[r], extID) {
				c.Check(ext == nil, "one-external-role", fname(f), p.Pos, "two external account roles are made")
				ext = r
				continue
			}
			owner := -1
			for k, i := range idx {
				if contains(id[r], deepStrip(mkField(mkElem(mods, i, nil), "Name", nil))) {
					owner = k
				}
			}
			if owner < 0 {
				c.Check(false, "role-of-a-module", fname(f), p.Pos, "role %v belongs neither to a module nor to external accounts", id[r])
				continue
			}
			m := mkElem(mods, idx[owner], nil)
			c.Check(modRole[m] == nil, "one-role-per-module", fname(f), p.Pos, "two roles are made for one module")
			modRole[m] = r
		}
		needsExt := false
		for _, i := range idx {
			m := mkElem(mods, i, nil)
			r := modRole[m]
			if r == nil {
				c.Check(false, "every-module", fname(f), p.Pos, "a module can be left without a role")
				continue
			}
			type want struct {
				verb int64
				res  *T
			}
			var wants []want
			opt := map[*T]bool{}
			sts, d1 := elems(facts, mkField(m, "StateTransitions", nil))
			objs, d2 := elems(facts, mkField(m, "StateObjects", nil))
			deps, d3 := elems(facts, mkField(m, "RequiredResources", nil))
			c.Check(d1 && d2 && d3, "everything-considered", fname(f), p.Pos, "a role is made without looking at every state transition, object and dependency of the module")
			for _, j := range sts {
				st := mkElem(mkField(m, "StateTransitions", nil), j, nil)
				def := deepStrip(mkField(st, "ApiDefinition", nil))
				wants = append(wants, want{vDeliver, def})
				// external?
				known, isExt := false, false
				for a, v := range facts {
					if a.Op == "field" && a.S == "External" && c.aclOf(p, a.A[0], st) {
						known, isExt = true, v
					}
				}
				got := false
				if ext != nil {
					for _, g := range roles[ext] {
						if g.res == def {
							got = true
						}
					}
				}
				if got {
					c.Check(known && isExt, "external-only-if-marked", fname(f), p.Pos, "the external account role gets a state transition whose access control does not mark it external")
				} else {
					c.Check(known && !isExt, "external-if-marked", fname(f), p.Pos, "a state transition marked external is not given to the external account role")
				}
				needsExt = true
				full["st"] = true
				if known && isExt {
					full["ext"] = true
				}
			}
			for _, j := range objs {
				def := deepStrip(mkField(mkElem(mkField(m, "StateObjects", nil), j, nil), "ApiDefinition", nil))
				for v, nm := range verbs {
					if v != 0 && v != vDeliver {
						_ = nm
						wants = append(wants, want{v, def})
					}
				}
				full["obj"] = true
			}
			for _, j := range deps {
				res := deepStrip(mkField(mkElem(mkField(m, "RequiredResources", nil), j, nil), "Resource", nil))
				v, known := decideIn(facts, mk("eq", "", nil, mkField(res, "ApiType", nil), mkInt(apiST)))
				if known && !v {
					opt[res] = true
					continue
				}
				wants = append(wants, want{vDeliver, res})
				full["dep"] = true
			}
			for _, w := range wants {
				k := 0
				for _, g := range roles[r] {
					if g.verb == w.verb && g.res == w.res {
						k++
					}
				}
				c.Check(k == 1, "module-role-complete", fname(f)+" "+verbs[w.verb], p.Pos, "the module's role is granted %s on %v %d times (it must be once)", verbs[w.verb], w.res, k)
			}
			for _, g := range roles[r] {
				ok := false
				for _, w := range wants {
					ok = ok || g.verb == w.verb && g.res == w.res
				}
				c.Check(ok, "module-role-minimal", fname(f)+" "+verbs[g.verb], p.Pos, "the module's role is granted %s on %v, which the module neither owns nor declared to need", verbs[g.verb], g.res)
			}
			// created and bound
			ce := createdAt[r]
			c.Check(ce != nil, "role-created", fname(f), p.Pos, "the module's role is never created")
			if ce == nil {
				continue
			}
			newID := field(field(ce.Deep[0], "NewRole"), "Id")
			bound := 0
			for _, e := range p.calls(fnClientDlv) {
				mt, d := delivered(e)
				if !strings.HasSuffix(mt, ".MsgBindRole") {
					continue
				}
				rid, sub := field(d, "RoleId"), field(d, "Subject")
				if same(sub, mkField(m, "Name", nil)) && (same(rid, newID) || same(rid, id[r])) {
					bound++
					c.Check(e.Seq > ce.Seq, "bound-after-created", fname(f), e.Pos, "the role is bound before it is created")
				}
			}
			c.Check(bound == 1, "role-bound", fname(f), p.Pos, "the module's role is bound to the module's name %d times (it must be once)", bound)
		}
		for _, e := range p.calls(fnClientDlv) {
			mt, d := delivered(e)
			switch {
			case strings.HasSuffix(mt, ".MsgCreateRole"):
			case strings.HasSuffix(mt, ".MsgBindRole"):
				ok := false
				for _, i := range idx {
					ok = ok || same(field(d, "Subject"), mkField(mkElem(mods, i, nil), "Name", nil))
				}
				c.Check(ok, "role-bound", fname(f), e.Pos, "a role is bound to %v, which is not a module", field(d, "Subject"))
			default:
				c.Check(false, "only-roles", fname(f), e.Pos, "creating the initial roles also delivers %s", mt)
			}
		}
		c.Check(ext != nil && createdAt[ext] != nil, "external-role-created", fname(f), p.Pos, "the external account role is not created")
		if ext != nil {
			for _, g := range roles[ext] {
				ok := false
				for _, i := range idx {
					sts, _ := elems(facts, mkField(mkElem(mods, i, nil), "StateTransitions", nil))
					for _, j := range sts {
						st := mkElem(mkField(mkElem(mods, i, nil), "StateTransitions", nil), j, nil)
						ok = ok || g.res == deepStrip(mkField(st, "ApiDefinition", nil))
					}
				}
				c.Check(ok && g.verb == vDeliver, "external-role-minimal", fname(f), p.Pos, "the external account role is granted %s on %v", verbs[g.verb], g.res)
			}
		}
		_ = needsExt
	}
	for _, k := range []string{"st", "ext", "obj", "dep"} {
		c.Check(full[k], "cases-covered", fname(f)+" "+k, c.P.pos(f.Pos()), "no successful path covers a module with a %s", k)
	}
}

// rolesOfAll: with two modules, or two elements in any list of a module, each
// of them gets what a single one gets.
func (c *Ctx) rolesOfAll(h *Handler, cfg Cfg, vDeliver int64, extID string, apiST int64) {
	f := h.Fn
	cfg.Generic, cfg.LoopK = false, 3
	lists := []string{"StateTransitions", "StateObjects", "RequiredResources"}
	for _, two := range append([]string{"Modules"}, lists...) {
		var mods []*T
		elems := map[*T]map[string][]*T{}
		cfg.Given = func(e *Engine, st *state, msg *T) {
			n := 1
			if two == "Modules" {
				n = 2
			}
			for i := 0; i < n; i++ {
				m := mk("param", fmt.Sprintf("module%d", i), msg.Typ)
				mods = append(mods, m)
				elems[m] = map[string][]*T{}
				for _, l := range lists {
					k := 0
					if l == two {
						k = 2
					} else if l == "StateTransitions" && two == "Modules" {
						k = 1
					}
					var es []*T
					for j := 0; j < k; j++ {
						es = append(es, mk("param", fmt.Sprintf("module%d.%s%d", i, l, j), msg.Typ))
					}
					elems[m][l] = es
					setList(st, m, l, es...)
				}
			}
			setList(st, msg, "Modules", mods...)
		}
		ps, _, _ := c.runHandler(h, cfg)
		n := 0
		for _, p := range ps {
			facts, ok := p.success()
			if p.Outcome != "return" || !ok {
				continue
			}
			n++
			ids := map[*T]*T{}
			for _, e := range p.calls(fnExtendRaw) {
				if r := strip(e.Args[0]); ids[r] == nil {
					ids[r] = field(e.Deep[0], "Id")
				}
			}
			created := map[string]bool{}
			bound := map[string]bool{}
			for _, e := range p.calls(fnClientDlv) {
				mt, d := delivered(e)
				if strings.HasSuffix(mt, ".MsgCreateRole") {
					created[field(field(d, "NewRole"), "Id").String()] = true
				} else if strings.HasSuffix(mt, ".MsgBindRole") {
					bound[field(d, "Subject").String()] = true
				}
			}
			c.Check(len(created) == len(mods)+1 && len(bound) == len(mods), "every-module", fname(f)+" "+two, p.Pos, "for %d modules, %d roles are created and %d bound", len(mods), len(created), len(bound))
			for _, m := range mods {
				for _, l := range lists {
					for _, el := range elems[m][l] {
						def := deepStrip(mkField(el, "ApiDefinition", nil))
						if l == "RequiredResources" {
							def = deepStrip(mkField(el, "Resource", nil))
							if v, known := decideIn(facts, mk("eq", "", nil, mkField(def, "ApiType", nil), mkInt(apiST))); known && !v {
								continue
							}
						}
						own, ext := 0, 0
						for _, e := range p.calls(fnExtendRaw) {
							if deepStrip(e.Args[2]) != def {
								continue
							}
							if strEq(ids[strip(e.Args[0])], extID) {
								ext++
							} else {
								own++
							}
						}
						want := 1
						if l == "StateObjects" {
							want = 5
						}
						c.Check(own == want, "module-role-complete", fname(f)+" "+two, p.Pos, "with two %s, the module's role is granted %v %d times instead of %d", two, def, own, want)
						if l == "StateTransitions" {
							isExt := false
							for a, v := range facts {
								if a.Op == "field" && a.S == "External" && c.aclOf(p, a.A[0], el) {
									isExt = v
								}
							}
							c.Check((ext == 1) == isExt && ext < 2, "external-if-marked", fname(f)+" "+two, p.Pos, "with two %s, a transition is given to the external account role %d times although it is marked %v", two, ext, isExt)
						}
					}
				}
			}
		}
		c.Check(n > 0, "cases-covered", fname(f)+" two "+two, c.P.pos(f.Pos()), "the roles are never created for two %s", two)
	}
}

// aclOf: the access control term was obtained for the given transition.
func (c *Ctx) aclOf(p *Path, acl, st *T) bool {
	if contains(acl, deepStrip(st)) {
		return true
	}
	if acl.Op == "res" {
		for _, e := range p.Events {
			for _, r := range e.Res {
				if r == acl {
					for _, a := range e.Args {
						if same(a, st) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// aclLookup: the functions that find a transition's access control return
// the option of the message descriptor of that very transition.
func (c *Ctx) aclLookup() {
	n := 0
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || f.Parent() != nil || !c.returnsACL(f) || f.Blocks == nil {
			continue
		}
		n++
		var std *T
		e0 := c.P.engine(Cfg{})
		args := e0.params(f)
		for i, p := range f.Params {
			if strings.HasSuffix(shortT(p.Type()), "module.StateTransition") {
				std = args[i]
			}
		}
		if std == nil {
			continue
		}
		okAny := false
		for _, p := range c.runFrom(newState(), f, args, Cfg{Generic: true, LoopK: 1}) {
			facts, ok := p.success()
			if !ok {
				continue
			}
			r := deepStrip(p.Ret[0])
			isNil, known := isNilIn(facts, p.Ret[0])
			c.Check(known && !isNil, "acl-missing-is-an-error", fname(f), p.Pos, "a state transition without access control options is accepted")
			okAny = true
			opt := findTerm(r, func(t *T) bool {
				return t.Op == "call" && strings.HasSuffix(t.S, "proto.GetExtension")
			})
			good := opt != nil && findTerm(opt, func(t *T) bool {
				return (t.Op == "gval" || t.Op == "global") && strings.HasSuffix(t.S, "E_StateTransitionAcl")
			}) != nil
			// the message is the one with the full name, not another one with
			// the same short name
			if md := findTerm(opt, func(t *T) bool {
				return t.Op == "call" && strings.HasSuffix(t.S, ".Options") && len(t.A) == 1
			}); good && c.Check(md != nil, "acl-of-this-transition", fname(f), p.Pos, "the access control is taken from %v", opt) {
				md = deepStrip(md.A[0])
				full := mk("field", "ProtobufFullname", nil, std)
				exact := findTerm(md, func(t *T) bool {
					return t.Op == "call" && strings.Contains(t.S, ".Find") && contains(t, full)
				}) != nil
				if e := p.eventOf(md); e != nil && strings.Contains(e.Fn, ".Find") {
					for _, a := range e.Args {
						exact = exact || same(unconv(deepStrip(a)), full)
					}
				}
				for fa, v := range facts {
					if !v || fa.Op != "eq" {
						continue
					}
					for k := 0; k < 2; k++ {
						n, w := unconv(deepStrip(fa.A[k])), unconv(deepStrip(fa.A[1-k]))
						if n.Op == "call" && strings.HasSuffix(n.S, ").FullName") && same(n.A[0], md) && same(w, full) {
							exact = true
						}
					}
				}
				good = exact
			}
			c.Check(good, "acl-of-this-transition", fname(f), p.Pos, "the access control returned is %v, which is not the option of the given state transition's own message", r)
		}
		c.Check(okAny, "acl-of-this-transition", fname(f), c.P.pos(f.Pos()), "no access control is ever found")
	}
}

func (c *Ctx) roleAdmission() {
	s := c.system()
	roleFields := map[string]string{"Gets": "StateObjects", "Lists": "StateObjects", "Creates": "StateObjects", "Updates": "StateObjects", "Deletes": "StateObjects", "Delivers": "StateTransitions"}
	hs := s.handlersFor("admission", "core/rbac/v1alpha1.MsgCreateRole")
	c.Check(len(hs) > 0, "role-admission", "MsgCreateRole", "-", "creating roles is not checked by any admission handler")
	found := map[string]bool{}
	for _, h := range hs {
		ps, _, msg := c.runHandler(h, Cfg{Generic: true, LoopK: 1})
		role := mkField(msg, "NewRole", nil)
		okAny := false
		bad := map[string]string{}
		for _, p := range ps {
			facts, ok := p.success()
			if !ok {
				continue
			}
			okAny = true
			if n, k := isNilIn(facts, role); !k || n {
				bad["nil"] = "a missing role is admitted"
			}
			rid := deepStrip(mkField(role, "Id", nil))
			if v, k := decideIn(facts, mk("eq", "", nil, mk("len", "", types.Typ[types.Int], rid), mkInt(0))); !k || v {
				bad["id"] = "a role without id is admitted"
			}
			exists := true
			for _, e := range p.calls(fnClientGet) {
				_, into := boxed(e.Args[1])
				if into != nil && into.Typ != nil && strings.HasSuffix(tname(into.Typ), "v1alpha1.Role") && same(idString(e.Deep[0]), rid) && e.failedIn(facts) {
					for a, v := range facts {
						if v && a.Op == "call" && strings.HasSuffix(a.S, "errors.Is") && deepStrip(a.A[0]) == deepStrip(e.Res[len(e.Res)-1]) && strings.HasSuffix(a.A[1].String(), "ErrNotFound") {
							exists = false
						}
					}
				}
			}
			if exists {
				bad["exists"] = "a role is admitted without knowing that its id is unused"
			}
			for fld, kind := range roleFields {
				if !c.knownResources(facts, deepStrip(mkField(role, fld, nil)), kind) {
					bad[fld] = "a role whose " + fld + " name unknown resources is admitted"
				}
			}
		}
		if !okAny {
			continue
		}
		for _, k := range append(sortedKeys(roleFields), "nil", "id", "exists") {
			if bad[k] == "" {
				found[k] = true
			}
		}
	}
	for _, k := range append(sortedKeys(roleFields), "nil", "id", "exists") {
		c.Check(found[k], "role-admission", "MsgCreateRole "+k, "-", "creating a role is admitted without the check on %s", k)
	}
	// binding
	hs = s.handlersFor("admission", "core/rbac/v1alpha1.MsgBindRole")
	ok := false
	for _, h := range hs {
		ps, _, msg := c.runHandler(h, Cfg{})
		all := len(ps) > 0
		for _, p := range ps {
			facts, succ := p.success()
			if !succ {
				continue
			}
			got := false
			for _, e := range p.calls(fnClientGet) {
				_, into := boxed(e.Args[1])
				if into != nil && into.Typ != nil && strings.HasSuffix(tname(into.Typ), "v1alpha1.Role") && same(idString(e.Deep[0]), mkField(msg, "RoleId", nil)) && e.okIn(facts) {
					got = true
				}
			}
			all = all && got
		}
		ok = ok || all
	}
	c.Check(ok, "bind-admission", "MsgBindRole", "-", "a role can be bound although it does not exist")
}

// knownResources: on this path the names in list are known to be names of
// the modules' resources of the given kind.
func (c *Ctx) knownResources(facts map[*T]bool, list *T, kind string) bool {
	other := map[string]string{"StateObjects": "StateTransitions", "StateTransitions": "StateObjects"}[kind]
	isKind := func(t *T, k string) bool {
		return findTerm(t, func(x *T) bool {
			return x.Op == "call" && x.S == "(*core/meta.APIDefinition).Name" && findTerm(x, func(y *T) bool { return y.Op == "field" && y.S == k }) != nil
		}) != nil
	}
	if v, k := decideIn(facts, mk("eq", "", nil, mk("len", "", types.Typ[types.Int], list), mkInt(0))); k && v {
		return true
	}
	idx, done := elems(facts, list)
	all := done
	for _, i := range idx {
		el := deepStrip(mkElem(list, i, nil))
		g := false
		for a, v := range facts {
			if v && a.Op != "eq" && a.Op != "lt" && contains(a, el) && isKind(a, kind) && !isKind(a, other) {
				g = true
			}
		}
		all = all && g
	}
	if all && done {
		return true
	}
	empty := true
	for a, v := range facts {
		if a.Op == "call" && strings.HasPrefix(a.S, "(*github.com/scylladb/go-set/strset.Set).Has") && same(a.A[1], list) {
			if v && isKind(a.A[0], kind) && !isKind(a.A[0], other) {
				return true
			}
			if v && len(nameLeaves(a.A[0])) == 0 {
				return true // membership in an empty set: infeasible for a non-empty list
			}
			empty = false
		}
	}
	_ = empty
	return false
}

// nameLeaves lists the element values a collection of names is built from.
func nameLeaves(t *T) []*T {
	t = deepStrip(t)
	switch t.Op {
	case "append":
		return append(nameLeaves(t.A[0]), nameLeaves(t.A[1])...)
	case "nil":
		return nil
	case "slicelit":
		return t.A
	case "mslice":
		var out []*T
		for i := 2; i < len(t.A); i += 2 {
			out = append(out, t.A[i])
		}
		return out
	case "slice":
		if t.A[0].Op == "slicelit" {
			return nameLeaves(t.A[0])
		}
	case "call":
		if t.S == "github.com/scylladb/go-set/strset.New" && len(t.A) > 0 {
			return nameLeaves(t.A[0])
		}
	}
	return []*T{t}
}

func (c *Ctx) roleExec() {
	s := c.system()
	for _, h := range s.handlersFor("exec", "core/rbac/v1alpha1.MsgCreateRole") {
		ps, _, msg := c.runHandler(h, Cfg{})
		for _, p := range ps {
			facts, ok := p.success()
			if !ok {
				continue
			}
			n := 0
			for _, e := range p.Events {
				if isClientWrite(e.Fn) {
					n++
					c.Check(e.Fn == fnClientCr && same(e.Args[0], mkField(msg, "NewRole", nil)) && e.okIn(facts), "role-stored-as-admitted", fname(h.Fn), e.Pos, "creating a role performs %s of %v", e.Fn, e.Deep[0])
				}
			}
			c.Check(n == 1, "role-stored-as-admitted", fname(h.Fn), p.Pos, "creating a role writes %d objects", n)
		}
	}
	for _, h := range s.handlersFor("exec", "core/rbac/v1alpha1.MsgBindRole") {
		ps, _, msg := c.runHandler(h, Cfg{})
		for _, p := range ps {
			facts, ok := p.success()
			if !ok {
				continue
			}
			n := 0
			for _, e := range p.Events {
				if isClientWrite(e.Fn) {
					n++
					d := e.Deep[0]
					c.Check(e.Fn == fnClientCr && strings.HasSuffix(objType(d), "RoleBinding") && same(field(d, "Subject"), mkField(msg, "Subject", nil)) && same(field(d, "RoleRef"), mkField(msg, "RoleId", nil)) && e.okIn(facts), "binding-stored", fname(h.Fn), e.Pos, "binding a role performs %s of %v", e.Fn, d)
				}
			}
			c.Check(n == 1, "binding-stored", fname(h.Fn), p.Pos, "binding a role writes %d objects", n)
		}
	}
}

// accountRole: creating an account binds its address, and nothing else, to
// the external account role.
func (c *Ctx) accountRole() {
	s := c.system()
	extID, _ := c.P.constStr("core/rbac/v1alpha1", "ExternalAccountRoleID")
	hs := s.handlersFor("exec", "x/authn/v1alpha1.MsgCreateAccount")
	c.Check(len(hs) == 1, "account-bound", "MsgCreateAccount", "-", "no handler creates accounts")
	for _, h := range hs {
		ps, _, msg := c.runHandler(h, Cfg{})
		for _, p := range ps {
			facts, ok := p.success()
			if !ok {
				continue
			}
			n := 0
			for _, e := range p.calls(fnClientDlv) {
				mt, d := delivered(e)
				if strings.HasSuffix(mt, ".MsgBindRole") {
					n++
					c.Check(strEq(field(d, "RoleId"), extID) && same(field(d, "Subject"), mkField(mkField(msg, "Account", nil), "Address", nil)) && e.okIn(facts), "account-bound", fname(h.Fn), e.Pos, "a new account is bound as %v", d)
				}
			}
			c.Check(n == 1, "account-bound", fname(h.Fn), p.Pos, "creating an account binds %d roles", n)
		}
	}
}
