package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnDeliver     = "(*runtime.Runtime).Deliver"
	fnClientGet   = "(runtime/client.Client).Get"
	fnClientList  = "(runtime/client.Client).List"
	fnClientCr    = "(runtime/client.Client).Create"
	fnClientUp    = "(runtime/client.Client).Update"
	fnClientDel   = "(runtime/client.Client).Delete"
	fnClientDlv   = "(runtime/client.Client).Deliver"
	fnTxUsers     = "(runtime/authentication.Tx).Users"
	fnTxSTs       = "(runtime/authentication.Tx).StateTransitions"
	fnToABCI      = "runtime/errors.ToABCIResponse"
	fnUsersList   = "(runtime/authentication/user.Users).List"
	fnUserGetName = "(runtime/authentication/user.User).GetName"
)

func isClientWrite(n string) bool {
	return n == fnClientCr || n == fnClientUp || n == fnClientDel || n == fnClientDlv
}

func init() {
	register("C05", "All paths of CheckTx and DeliverTx are enumerated (runtime chains inlined): before any effect (post-authentication step or state transition delivery) and before any success answer, the transaction was decoded without error, every transaction admission handler and, for every transition, every admission handler registered for that transition accepted it; post-authentication steps all precede all deliveries, both run in list order, each once, and stop at the first failure.", c05)
	register("C06", "Every admission handler, authentication admission handler, authorizer and query path in the repository is enumerated; none of them may reach a write: a client Create, Update, Delete or Deliver, or a write of the object, index or key-value stores. The read-only client refuses writes on every path.", c06)
}

// sliceOf: t is a slice whose elements are of the given interface type.
func sliceOf(t types.Type, el types.Type) bool {
	if t == nil || el == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), el)
}

// colsOf lists the collections of handlers (of the element type) whose size
// the path has looked at.
func colsOf(facts map[*T]bool, el types.Type) []*T {
	seen := map[*T]bool{}
	var out []*T
	for a := range facts {
		findTerm(a, func(t *T) bool {
			if t.Op == "len" && sliceOf(t.A[0].Typ, el) && !seen[t.A[0]] {
				seen[t.A[0]] = true
				out = append(out, t.A[0])
			}
			return false
		})
	}
	return out
}

// allVisited: every element of col was handed to fn, without error, before seq.
func (c *Ctx) allVisited(p *Path, facts map[*T]bool, seq int, col *T, fn string, args func(e *Event) bool) (bool, string) {
	idx, done := elems(facts, col)
	if !done {
		return false, "not every element of " + col.String() + " has been visited"
	}
	for _, i := range idx {
		ok := false
		for _, e := range p.calls(fn) {
			if e.Seq < seq && same(e.Recv, mkElem(col, i, nil)) && e.okIn(facts) && args(e) {
				ok = true
			}
		}
		if !ok {
			return false, col.String() + "[" + i.String() + "] did not accept it"
		}
	}
	return true, ""
}

// admitted: the transaction passed decoding and all admission handlers.
func (c *Ctx) admitted(p *Path, facts map[*T]bool, seq int, raw *T) (bool, string, *T) {
	var tx *T
	for _, e := range p.calls(fnDecodeTx) {
		if e.Seq < seq && e.okIn(facts) {
			if raw != nil && !same(e.Args[0], raw) {
				return false, "the bytes decoded are not those received", nil
			}
			tx = e.Res[0]
		}
	}
	if tx == nil {
		return false, "the transaction was not decoded successfully", nil
	}
	aa := c.P.named("runtime/authentication", "AdmissionHandler")
	ta := c.P.named("runtime/statetransition", "AdmissionHandler")
	if aa == nil || ta == nil {
		return false, "handler types not found", tx
	}
	ok, why := false, "the transaction admission handlers were not run"
	for _, col := range colsOf(facts, aa) {
		if col.Op != "field" {
			continue
		}
		o, w := c.allVisited(p, facts, seq, col, fnAuthAdm, func(e *Event) bool { return same(e.Args[0], tx) })
		ok = ok || o
		if !o {
			why = w
		}
	}
	if !ok {
		return false, why, tx
	}
	sts := mk("call", fnTxSTs, nil, tx)
	users := mk("call", fnTxUsers, nil, tx)
	idx, done := elems(facts, sts)
	if !done {
		return false, "not every state transition was examined by its admission handlers", tx
	}
	for _, i := range idx {
		tr := deepStrip(mkElem(sts, i, nil))
		key := mk("call", "core/meta.Name", nil, tr)
		found := false
		why := "the admission handlers of transition " + i.String() + " were not run"
		for a, v := range facts {
			if a.Op == "mapok" && !v && same(a.A[1], key) && isMapToSlice(a.A[0].Typ, ta) {
				found = true
			}
		}
		for _, col := range colsOf(facts, ta) {
			if col.Op != "maplookup" || !same(col.A[1], key) {
				continue
			}
			o, w := c.allVisited(p, facts, seq, col, fnAdmission, func(e *Event) bool {
				return same(field(e.Deep[0], "Transition"), tr) && same(field(e.Deep[0], "Users"), users)
			})
			found = found || o
			if !o {
				why = w
			}
		}
		if !found {
			return false, why, tx
		}
	}
	return true, "", tx
}

func isMapToSlice(t types.Type, el types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && sliceOf(m.Elem(), el)
}

// inOrder: the indexes at which the elements are visited increase from zero.
func inOrder(facts map[*T]bool, idx []*T) bool {
	for k, i := range idx {
		if k == 0 {
			if n, ok := i.intVal(); !ok || n != 0 {
				return false
			}
			continue
		}
		a, ok1 := idx[k-1].intVal()
		b, ok2 := i.intVal()
		if ok1 && ok2 {
			if b <= a {
				return false
			}
			continue
		}
		x, o := splitAdd(i)
		y, q := splitAdd(idx[k-1])
		if x == y && o > q {
			continue
		}
		v, known := decideIn(facts, mk("lt", "", nil, idx[k-1], i))
		if !known || !v {
			return false
		}
	}
	return true
}

func abciOpaque(n string) bool { return n == fnDeliver || n == fnToABCI }

func c05(c *Ctx) {
	pa := c.P.named("runtime/authentication", "PostAuthenticationHandler")
	for _, t := range c.abciApps() {
		for _, n := range []string{"CheckTx", "DeliverTx"} {
			f := unwrap(c.P, c.methodFor(t, n))
			pure := map[string]bool{fnToABCI: true}
			ps := c.run(f, Cfg{Opaque: func(n string) bool { return n == fnDeliver }, Pure: func(n string) bool { return pure[n] }})
			raw := mk("field", "Tx", nil, mk("param", f.Params[1].Name(), nil))
			okAny := false
			for _, p := range ps {
				if p.Outcome != "return" {
					c.Check(false, "no-panic", fname(f), p.Pos, "%s can panic at %s", fname(f), p.Pos)
					continue
				}
				// effects
				var effects []*Event
				for _, e := range p.Events {
					if e.Kind != "call" {
						continue
					}
					if e.Fn == fnPostAuth || e.Fn == fnDeliver || isORMWrite(e.Fn) || isClientWrite(e.Fn) || strings.HasPrefix(e.Fn, "(*runtime.Runtime).") {
						effects = append(effects, e)
					}
				}
				for _, e := range effects {
					if n == "CheckTx" {
						c.Check(false, "check-has-no-effect", fname(f)+"→"+e.Fn, e.Pos, "%s runs %s: checking a transaction must not change anything", fname(f), e.Fn)
						continue
					}
					ok, why, tx := c.admitted(p, p.factsBefore(e.Seq), e.Seq, raw)
					c.Check(ok, "admitted-before-effect", fname(f)+"→"+e.Fn, e.Pos, "%s reaches %s although %s", fname(f), e.Fn, why)
					if !ok {
						continue
					}
					if e.Fn == fnPostAuth {
						c.Check(same(field(e.Deep[0], "Tx"), tx), "effect-of-this-tx", fname(f)+"→"+e.Fn, e.Pos, "the post authentication step gets %v, not the decoded transaction", e.Deep[0])
					}
					if e.Fn == fnDeliver {
						c.Check(same(e.Args[1], mk("call", fnTxUsers, nil, tx)), "effect-of-this-tx", fname(f)+"→"+e.Fn, e.Pos, "the transition is delivered on behalf of %v, not of the users of the transaction", e.Args[1])
						fb := p.factsBefore(e.Seq)
						o, w := false, "the post authentication steps were not run"
						for _, col := range colsOf(fb, pa) {
							if col.Op != "field" {
								continue
							}
							o2, w2 := c.allVisited(p, fb, e.Seq, col, fnPostAuth, func(*Event) bool { return true })
							o = o || o2
							if !o2 {
								w = w2
							}
						}
						c.Check(o, "authenticated-before-delivery", fname(f)+"→"+e.Fn, e.Pos, "%s delivers a transition although %s", fname(f), w)
					}
				}
				// order and multiplicity of effects; stop at the first failure
				for i, e := range effects {
					for _, d := range effects[i+1:] {
						c.Check(e.okIn(p.factsBefore(d.Seq)), "stop-at-first-failure", fname(f)+"→"+e.Fn, d.Pos, "%s goes on with %s without knowing that %s succeeded", fname(f), d.Fn, e.Fn)
						c.Check(!(e.Fn == fnDeliver && d.Fn == fnPostAuth), "authenticated-before-delivery", fname(f), d.Pos, "a post authentication step runs after a transition was delivered")
					}
				}
				code := field(p.RetDeep[0], "Code")
				zeroCode := false
				if code != nil {
					if v, ok := code.intVal(); ok && v == 0 {
						zeroCode = true
					}
				}
				if !zeroCode {
					// a rejection: it must be based on a failure
					ok := false
					for a, v := range p.facts {
						if !v && a.Op == "eq" && a.A[1].isNil() && (isErrorType(a.A[0].Typ) || a.A[0].Op == "res") {
							ok = true
						}
						if !v && a.Op == "mapok" {
							ok = true
						}
					}
					c.Check(ok, "rejected-for-a-reason", fname(f), p.Pos, "%s rejects a transaction although nothing failed", fname(f))
					continue
				}
				okAny = true
				const end = 1 << 30
				ok, why, tx := c.admitted(p, p.facts, end, raw)
				c.Check(ok, "success-means-admitted", fname(f), p.Pos, "%s answers success although %s", fname(f), why)
				if n == "CheckTx" || !ok {
					continue
				}
				for _, e := range effects {
					c.Check(e.okIn(p.facts), "success-means-delivered", fname(f)+"→"+e.Fn, p.Pos, "%s answers success although %s may have failed", fname(f), e.Fn)
				}
				// post-auth in order, once each
				for _, col := range colsOf(p.facts, pa) {
					var ord []*T
					for _, e := range p.calls(fnPostAuth) {
						r := deepStrip(e.Recv)
						if r.Op == "elem" && r.A[0] == col {
							ord = append(ord, r.A[1])
						}
					}
					c.Check(inOrder(p.facts, ord), "in-order", fname(f)+"→"+fnPostAuth, p.Pos, "post authentication steps do not run once each in the order they were registered: %v", ord)
				}
				sts := deepStrip(mk("call", fnTxSTs, nil, tx))
				idx, done := elems(p.facts, sts)
				var ord []*T
				for _, e := range p.calls(fnDeliver) {
					r := deepStrip(e.Args[2])
					if r.Op == "elem" && r.A[0] == sts {
						ord = append(ord, r.A[1])
					} else {
						c.Check(false, "effect-of-this-tx", fname(f)+"→"+e.Fn, e.Pos, "%s delivers %v, which is not a transition of the transaction", fname(f), r)
					}
				}
				c.Check(done && len(idx) == len(ord) && inOrder(p.facts, ord), "in-order", fname(f)+"→"+fnDeliver, p.Pos, "%s answers success without delivering each state transition once, in order (%d of them, delivered %v)", fname(f), len(idx), ord)
			}
			c.Check(okAny, "success-reachable", fname(f), c.P.pos(f.Pos()), "%s never accepts a transaction", fname(f))
		}
	}
	// skipping admission is only for transactions already admitted
	if sk := c.P.fn("runtime", "DeliverSkipAdmissionHandlers"); sk != nil {
		roots := map[*ssa.Function]bool{}
		for _, t := range c.abciApps() {
			roots[unwrap(c.P, c.methodFor(t, "DeliverTx"))] = true
		}
		for caller := range c.P.callers()[sk] {
			bad := c.reachedOnlyFrom(caller, roots)
			c.Check(bad == nil, "skip-only-when-admitted", fname(caller), c.P.pos(caller.Pos()), "%s delivers without admission checks outside of DeliverTx", fname(caller))
		}
	}
	// Deliver itself: admission unless explicitly skipped
	c.deliverAdmission()
}

// deliverAdmission: Runtime.Deliver without options runs every admission
// handler of the transition before anything else happens.
func (c *Ctx) deliverAdmission() {
	f := c.method("runtime", "Runtime", "Deliver")
	ta := c.P.named("runtime/statetransition", "AdmissionHandler")
	if f == nil || ta == nil {
		return
	}
	e0 := c.P.engine(Cfg{})
	args := e0.params(f)
	args[len(args)-1] = mkNil(args[len(args)-1].Typ)
	users, tr := deepStrip(args[1]), deepStrip(args[2])
	key := mk("call", "core/meta.Name", nil, tr)
	// the transition value itself, however it is boxed
	for _, p := range c.runFrom(newState(), f, args, Cfg{Opaque: ormOpaque}) {
		for _, e := range p.Events {
			if e.Fn != fnExec && e.Fn != fnPreExec && e.Fn != fnPostExec {
				continue
			}
			fb := p.factsBefore(e.Seq)
			found := false
			why := "its admission handlers were not run"
			for a, v := range fb {
				if a.Op == "mapok" && !v && same(a.A[1], key) && isMapToSlice(a.A[0].Typ, ta) {
					found = true
				}
			}
			for _, col := range colsOf(fb, ta) {
				if col.Op != "maplookup" || !same(col.A[1], key) {
					continue
				}
				o, w := c.allVisited(p, fb, e.Seq, col, fnAdmission, func(x *Event) bool {
					return same(field(x.Deep[0], "Transition"), tr) && same(field(x.Deep[0], "Users"), users)
				})
				found = found || o
				if !o {
					why = w
				}
			}
			c.Check(found, "admission-before-execution", fname(f)+"→"+e.Fn, e.Pos, "%s executes a transition although %s", fname(f), why)
		}
	}
}

// writesOf reports the first write reachable on a path.
func writeEvent(p *Path) *Event {
	for _, e := range p.Events {
		if e.Kind != "call" && e.Kind != "go" {
			continue
		}
		if isClientWrite(e.Fn) || isORMWrite(e.Fn) || e.Fn == fnDeliver || isKVWrite(e.Fn) {
			return e
		}
		switch e.Fn {
		case "(*runtime.Runtime).Create", "(*runtime.Runtime).Update", "(*runtime.Runtime).Delete", fnExec, fnPreExec, fnPostExec, fnPostAuth:
			return e
		}
	}
	return nil
}

func isKVWrite(n string) bool {
	return n == "(runtime/kv.KV).Set" || n == "(runtime/kv.KV).Delete" || n == "(runtime/kv.KV).Clear"
}

func c06(c *Ctx) {
	s := c.system()
	n := 0
	for _, h := range append(s.handlers("admission"), s.handlers("auth")...) {
		n++
		ps, _, _ := c.runHandler(h, Cfg{})
		for _, p := range ps {
			e := writeEvent(p)
			if e != nil {
				c.Check(false, "admission-read-only", fname(h.Fn)+"→"+e.Fn, e.Pos, "admission handler %s writes through %s", fname(h.Fn), e.Fn)
			} else {
				c.Check(true, "admission-read-only", fname(h.Fn), "", "")
			}
		}
	}
	c.Check(n >= 8, "handlers-found", "admission handlers", "-", "only %d admission handlers found", n)
	for _, m := range s.Mods {
		if m.Auth == nil {
			continue
		}
		for _, p := range c.runMethod(m, m.Auth, "Authorize", Cfg{}) {
			e := writeEvent(p)
			c.Check(e == nil, "authorizer-read-only", m.Name, p.Pos, "the authorizer of module %s writes", m.Name)
		}
	}
	// queries
	ro := func(f *ssa.Function, rule string, cfg Cfg) {
		if f == nil {
			return
		}
		for _, p := range c.run(f, cfg) {
			e := writeEvent(p)
			if e != nil {
				c.Check(false, rule, fname(f)+"→"+e.Fn, e.Pos, "%s writes through %s", fname(f), e.Fn)
			} else {
				c.Check(true, rule, fname(f), "", "")
			}
		}
	}
	for _, t := range c.abciApps() {
		ro(unwrap(c.P, c.methodFor(t, "Query")), "query-read-only", Cfg{Opaque: func(n string) bool {
			return n == "(runtime/orm.Store).Get" || n == "(runtime/orm.Store).List"
		}})
		ro(unwrap(c.P, c.methodFor(t, "Info")), "query-read-only", Cfg{})
		ro(unwrap(c.P, c.methodFor(t, "CheckTx")), "query-read-only", Cfg{Opaque: func(n string) bool { return n == fnDeliver }, Pure: func(n string) bool { return n == fnToABCI }})
	}
	for _, n := range []string{"Get", "List"} {
		ro(c.method("runtime", "Runtime", n), "read-only-reads", Cfg{Opaque: ormOpaque})
		ro(c.method("runtime/orm", "Store", n), "read-only-reads", Cfg{})
		ro(c.method("runtime", "ModuleClient", n), "read-only-reads", Cfg{Opaque: ormOpaque})
	}
	// the read-only client refuses
	nro := 0
	ci := c.P.named("runtime/client", "Client")
	for _, t := range c.P.implementers(ci) {
		if strings.Contains(shortT(t), "testdata") {
			continue
		}
		cr := c.methodFor(t, "Create")
		if cr == nil || forwardsToInterface(cr) {
			continue
		}
		// clients that carry an identity are module clients
		if c.methodFor(t, "SetUser") != nil {
			continue
		}
		nro++
		for _, n := range []string{"Create", "Update", "Delete", "Deliver", "Get", "List"} {
			m := c.methodFor(t, n)
			ps := c.run(m, Cfg{Opaque: ormOpaque})
			for _, p := range ps {
				e := writeEvent(p)
				c.Check(e == nil, "read-only-client", fname(m), p.Pos, "%s of a read-only client writes", fname(m))
				if n != "Get" && n != "List" {
					_, ok := p.success()
					c.Check(!ok, "read-only-client-refuses", fname(m), p.Pos, "%s reports success although nothing can be written", fname(m))
				}
			}
		}
	}
	c.Check(nro > 0, "read-only-client", "read-only client", "-", "no read-only client found")
	// extension services get a client that cannot write
	sc := c.method("runtime", "ServiceGroup", "Start")
	if sc != nil {
		for _, p := range c.run(sc, Cfg{}) {
			for _, e := range p.Events {
				if strings.HasSuffix(e.Fn, "ExtensionService).SetClient") {
					ct, _ := boxed(e.Args[0])
					var cr *ssa.Function
					if ct != nil {
						cr = c.methodFor(ct, "SetUser")
					}
					c.Check(ct != nil && cr == nil, "services-read-only", fname(sc), e.Pos, "a service is handed %v, which is not a read-only client", e.Args[0])
				}
			}
		}
	}
}
