package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "Every path of the conversion of errors to responses is enumerated with the class of error it establishes; the code written is resolved to the constants in the package initialiser, which nothing else may change, and must be the documented non-zero code of that class. Every producer of a transaction response is a caller with an error known to be non-nil; the admission chains wrap what they return as bad requests.", c14)
	register("C23", "Every successful path of the builder is enumerated: for every module and every element of each of its lists of handlers, objects and dependencies the registering call must have been made with exactly that element and have succeeded. The descriptor builder's methods must add exactly their argument to the list of that kind.", c23)
	register("C24", "All paths of genesis are enumerated: descriptors of all modules are delivered first, then every module's genesis once in order, errors end it, services start afterwards and the runtime becomes initialised only on success. Every singleton object a module updates or reads unconditionally must be created by its genesis, once.", c24)
	register("C25", "All paths of delivering a state transition are enumerated: pre execution handlers, the execution handler and post execution handlers of exactly that transition, each once and in order with the same request, each only after the one before succeeded. All paths of the router's methods are enumerated: additions append to the transition's list in the table lookups read.", c25)
	register("C28", "All paths of the block lifecycle entry points and of the handlers they deliver to are enumerated: what is delivered must be the request received, what is stored the message delivered, what is answered the stored validator updates; every failure must stop the process.", c28)
}

const rtPkg = "runtime"

// ---------------------------------------------------------------- C14

// globalConst reads the constant a package variable is initialised with; ok is
// false when it may have another value.
func (c *Ctx) globalConst(g *ssa.Global) (constant.Value, bool) {
	var v constant.Value
	n := 0
	for _, f := range c.P.allFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr != g {
							return nil, false // its address escapes
						}
						k, ok := x.Val.(*ssa.Const)
						if !ok {
							return nil, false
						}
						v = k.Value
						n++
					case *ssa.UnOp:
					default:
						return nil, false
					}
				}
			}
		}
	}
	return v, n == 1
}

func (c *Ctx) global(name string) *ssa.Global {
	i := strings.LastIndex(name, ".")
	for _, pk := range c.P.SSA.AllPackages() {
		if pk.Pkg.Path() == modPath+"/"+name[:i] {
			g, _ := pk.Members[name[i+1:]].(*ssa.Global)
			return g
		}
	}
	return nil
}

// codeOf resolves a response code to a number.
func (c *Ctx) codeOf(t *T) (int64, bool) {
	t = deepStrip(t)
	if n, ok := t.intVal(); ok {
		return n, true
	}
	for t.Op == "deref" || t.Op == "conv" {
		t = t.A[0]
	}
	if t.Op == "gval" || t.Op == "global" {
		if g := c.global(t.S); g != nil {
			if v, ok := c.globalConst(g); ok {
				return constant.Int64Val(constant.ToInt(v))
			}
		}
	}
	return 0, false
}

var errCodes = []struct {
	name string
	code int64
}{{"ErrBadRequest", 400}, {"ErrNotFound", 404}, {"ErrAlreadyExists", 409}, {"ErrConditionNotMet", 412}}

func errClass(f, err *T) string {
	if f.Op != "call" || f.S != "errors.Is" && f.S != "runtime/errors.Is" || deepStrip(f.A[0]) != err {
		return ""
	}
	t := deepStrip(f.A[1])
	for t.Op == "deref" {
		t = t.A[0]
	}
	return t.S[strings.LastIndex(t.S, ".")+1:]
}

func c14(c *Ctx) {
	f := c.fn("runtime/errors", "ToABCIResponse")
	if f == nil {
		return
	}
	a := c.params(f)
	err := deepStrip(a[len(a)-1])
	seen := map[string]bool{}
	for _, p := range c.run(f, Cfg{}) {
		if !c.Check(p.Outcome == "return", "code-total", fname(f), p.Pos, "turning an error into a response panics") {
			continue
		}
		is, not := map[string]bool{}, map[string]bool{}
		for fa, v := range p.facts {
			if n := errClass(fa, err); n != "" {
				if v {
					is[n] = true
				} else {
					not[n] = true
				}
			}
		}
		code, known := c.codeOf(field(p.RetDeep[0], "Code"))
		if !c.Check(known, "code-known", fname(f), p.Pos, "the code %v of the response is not a constant", field(p.RetDeep[0], "Code")) {
			continue
		}
		c.Check(code != 0, "code-not-success", fname(f), p.Pos, "an error is answered with the code of success")
		class := ""
		for _, e := range errCodes {
			if is[e.name] && class == "" {
				class = e.name
				c.Check(code == e.code, "code-of-class", e.name, p.Pos, "%s is answered with code %d instead of %d", e.name, code, e.code)
				seen[e.name] = true
			}
		}
		if class == "" {
			all := true
			for _, e := range errCodes {
				all = all && not[e.name]
			}
			c.Check(all && code == 1, "code-of-class", "other", p.Pos, "an error which may be of a known class is answered with code %d", code)
			seen["other"] = true
		}
		l := deepStrip(field(p.RetDeep[0], "Log"))
		c.Check(l.Op == "call" && l.S == "(error).Error" && l.A[0] == err, "code-log", fname(f), p.Pos, "the log of a failure is %v", l)
		s, ok := deepStrip(field(p.RetDeep[0], "Codespace")).strVal()
		c.Check(ok && s == "runtime", "code-space", fname(f), p.Pos, "the code space of a failure is %v", field(p.RetDeep[0], "Codespace"))
	}
	for _, e := range errCodes {
		c.Check(seen[e.name], "code-of-class", e.name, c.P.pos(f.Pos()), "%s has no code of its own", e.name)
	}
	// the runtime's own helpers are the standard ones
	for n, std := range map[string]string{"Is": "errors.Is", "New": "errors.New"} {
		g := c.fn("runtime/errors", n)
		if g == nil {
			continue
		}
		ga := c.params(g)
		for _, p := range c.run(g, Cfg{}) {
			r := deepStrip(p.Ret[0])
			good := p.Outcome == "return" && r.Op == "call" && r.S == std && len(r.A) == len(ga)
			for i := range ga {
				good = good && r.A[i] == deepStrip(ga[i])
			}
			c.Check(good, "errors-helpers", fname(g), p.Pos, "%s is %v", fname(g), r)
		}
	}
	// the classes are distinct errors
	for _, e := range append(errCodes, struct {
		name string
		code int64
	}{"ErrUnauthorized", 1}) {
		g := c.global("runtime/errors." + e.name)
		n := 0
		if g != nil {
			for _, fn := range c.P.allFuncs {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == g {
							n++
							call, ok := st.Val.(*ssa.Call)
							c.Check(ok && callName(call.Common()) == "errors.New", "class-distinct", e.name, c.P.pos(st.Pos()), "%s is not an error of its own", e.name)
						}
					}
				}
			}
		}
		c.Check(n == 1, "class-distinct", e.name, "-", "%s is set in %d places", e.name, n)
	}
	// only errors are converted
	for _, cs := range c.P.callSites(func(n string) bool { return n == fnToABCI }) {
		c.Check(c.onlyAfterError(cs), "code-for-errors-only", fname(cs.In), c.P.pos(cs.Call.Pos()), "%s answers a failure that did not happen", fname(cs.In))
	}
	c.storeClasses()
	// what the admission chains return is a bad request, except for unknown
	// transitions
	for _, t := range c.abciApps() {
		for _, n := range []string{"CheckTx", "DeliverTx"} {
			f := unwrap(c.P, c.methodFor(t, n))
			for _, p := range c.run(f, Cfg{Opaque: func(n string) bool { return n == fnDeliver || n == fnToABCI }}) {
				for _, e := range p.calls(fnToABCI) {
					x := e.Args[len(e.Args)-1]
					src := p.failedStep()
					switch {
					case src == nil:
					case src.Fn == fnAuthAdm || src.Fn == fnAdmission || src.Fn == fnPostAuth:
						is := false
						for _, s := range wrappedErrs(x) {
							is = is || s == "runtime/errors.ErrBadRequest"
						}
						c.Check(is, "rejection-is-bad-request", fname(f)+"→"+src.Fn, e.Pos, "the rejection by %s is answered as %v, not as a bad request", src.Fn, x)
						c.Check(contains(x, src.Res[len(src.Res)-1]), "rejection-carries-reason", fname(f)+"→"+src.Fn, e.Pos, "the reason of the rejection by %s is lost", src.Fn)
					default:
						c.Check(contains(x, src.Res[len(src.Res)-1]), "failure-carries-reason", fname(f)+"→"+src.Fn, e.Pos, "the failure of %s is answered as %v", src.Fn, x)
					}
				}
			}
		}
	}
}

// storeClasses: failures of the store keep their class on the way through the
// runtime, and are always reported.
func (c *Ctx) storeClasses() {
	store := func(n string) bool { return strings.HasPrefix(n, "(runtime/orm.Store).") }
	for _, n := range []string{"Get", "List", "Create", "Update", "Delete"} {
		f := c.method(rtPkg, "Runtime", n)
		if f == nil {
			continue
		}
		okAny, called := false, false
		for _, p := range c.run(f, Cfg{Opaque: store}) {
			facts, ok := p.success()
			for _, e := range p.callsLike(store) {
				called = true
				err := e.Res[len(e.Res)-1]
				if ok {
					okAny = true
					c.Check(e.okIn(facts), "store-failure-reported", fname(f), p.Pos, "%s succeeds although the store may have failed", fname(f))
				}
				if e.okIn(p.facts) {
					continue
				}
				r := p.errRet()
				for from, to := range map[string]string{"ErrNotFound": "runtime/errors.ErrNotFound", "ErrAlreadyExists": "runtime/errors.ErrAlreadyExists"} {
					is, known := false, false
					for fa, v := range p.facts {
						if errClass(fa, deepStrip(err)) == from {
							is, known = v, true
						}
					}
					if !known {
						// decided by being of the other class
						for fa, v := range p.facts {
							if cl := errClass(fa, deepStrip(err)); cl != "" && cl != from && v {
								known = true
							}
						}
					}
					if !c.Check(known, "store-class", fname(f)+" "+from, p.Pos, "%s does not tell whether the store's failure is %s", fname(f), from) {
						continue
					}
					if is {
						c.Check(wraps(r, to), "store-class", fname(f)+" "+from, p.Pos, "the store's %s is reported as %v", from, r)
					} else {
						c.Check(!wraps(r, to), "store-class", fname(f)+" "+from, p.Pos, "another failure of the store is reported as %v", r)
					}
				}
				c.Check(contains(r, deepStrip(err)), "store-class", fname(f), p.Pos, "the store's failure is reported as %v", r)
			}
		}
		c.Check(okAny && called, "store-class", fname(f), c.P.pos(f.Pos()), "%s never succeeds", fname(f))
	}
}

// failedStep: the last event known to have failed on the path.
func (p *Path) failedStep() *Event {
	for i := len(p.Events) - 1; i >= 0; i-- {
		e := p.Events[i]
		if e.Kind == "call" && len(e.Res) > 0 && e.failedIn(p.facts) {
			return e
		}
	}
	return nil
}

// onlyAfterError: the error handed over at the call is known to be non-nil
// there (directly, by the branch that dominates the call).
func (c *Ctx) onlyAfterError(cs CallSite) bool {
	args := cs.Call.Common().Args
	x := args[len(args)-1]
	b := cs.Call.Block()
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		other := bo.X
		if k, isC := bo.X.(*ssa.Const); isC && k.IsNil() {
			other = bo.Y
		} else if k, isC := bo.Y.(*ssa.Const); !isC || !k.IsNil() {
			continue
		}
		if sameValue(other, x) && (bo.Op.String() == "!=" && id.Succs[0] == d || bo.Op.String() == "==" && id.Succs[1] == d) {
			return true
		}
	}
	// a parameter: the callers must
	if pa, ok := x.(*ssa.Parameter); ok {
		ok = false
		for _, cs2 := range c.P.callSites(func(n string) bool { return n == fname(cs.In) }) {
			ok = true
			for i, q := range cs.In.Params {
				if q == pa {
					cs3 := cs2
					a2 := cs2.Call.Common().Args
					if i >= len(a2) || !c.argNonNil(cs3, a2[i]) {
						return false
					}
				}
			}
		}
		return ok
	}
	// fmt.Errorf and the like never return nil
	if call, ok := x.(*ssa.Call); ok {
		switch callName(call.Common()) {
		case "fmt.Errorf", "errors.New", "runtime/errors.New":
			return true
		}
	}
	return false
}

func (c *Ctx) argNonNil(cs CallSite, x ssa.Value) bool {
	for d := cs.Call.Block(); d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		if bo, ok := iff.Cond.(*ssa.BinOp); ok && (sameValue(bo.X, x) || sameValue(bo.Y, x)) {
			if bo.Op.String() == "!=" && id.Succs[0] == d || bo.Op.String() == "==" && id.Succs[1] == d {
				return true
			}
		}
	}
	return false
}

// sameValue: the same SSA value, or loads of the same variable.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	u, ok1 := a.(*ssa.UnOp)
	v, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && u.Op == v.Op && u.X == v.X
}

// ---------------------------------------------------------------- C25

// handlerTable: the name of the router field holding the handlers of a type.
type tableUse struct{ name, where string }

func (c *Ctx) routerTable(t *T) string {
	t = deepStrip(t)
	if t.Op == "field" && t.A[0].Typ != nil {
		return t.S
	}
	return ""
}

func lookupOf(col *T) (table string, key *T) {
	col = deepStrip(col)
	for col.Op == "append" && col.A[0].isNil() {
		col = col.A[1]
	}
	if col.Op == "maplookup" && col.A[0].Op == "field" {
		return col.A[0].S, col.A[1]
	}
	return "", nil
}

func isNameOf(t, tr *T) bool {
	t = deepStrip(t)
	return t.Op == "call" && t.S == "core/meta.Name" && len(t.A) == 1 && t.A[0] == deepStrip(tr)
}

func c25(c *Ctx) {
	used := c.deliverOrder()
	c.router(used)
}

// deliverOrder: Runtime.Deliver. Returns handler type → router table.
func (c *Ctx) deliverOrder() map[string]string {
	used := map[string]string{}
	f := c.method(rtPkg, "Runtime", "Deliver")
	if f == nil {
		return used
	}
	kinds := []struct {
		fn, typ, req string
	}{
		{fnPreExec, "PreExecutionHandler", "pre execution"},
		{fnExec, "ExecutionHandler", "execution"},
		{fnPostExec, "PostExecutionHandler", "post execution"},
	}
	args := c.P.engine(Cfg{}).params(f)
	args[len(args)-1] = mkNil(args[len(args)-1].Typ)
	users, tr := deepStrip(args[1]), deepStrip(args[2])
	okAny, okFull := false, false
	for _, p := range c.runFrom(newState(), f, args, Cfg{Opaque: ormOpaque}) {
		if !c.Check(p.Outcome == "return", "deliver-panics", fname(f), p.Pos, "delivering a transition panics in the runtime itself") {
			continue
		}
		steps := p.callsAny(fnPreExec, fnExec, fnPostExec)
		rank := map[string]int{fnPreExec: 0, fnExec: 1, fnPostExec: 2}
		for i, e := range steps {
			if i > 0 {
				c.Check(rank[steps[i-1].Fn] <= rank[e.Fn], "deliver-order", fname(f)+"→"+e.Fn, e.Pos, "%s runs after %s", e.Fn, steps[i-1].Fn)
				c.Check(steps[i-1].okIn(p.factsBefore(e.Seq)), "deliver-stops", fname(f)+"→"+e.Fn, e.Pos, "%s runs although %s may have failed", e.Fn, steps[i-1].Fn)
			}
			c.Check(same(field(e.Deep[0], "Transition"), tr) && same(field(e.Deep[0], "Users"), users), "deliver-request", fname(f)+"→"+e.Fn, e.Pos, "%s gets another request: %v", e.Fn, e.Deep[0])
			col := deepStrip(e.Recv)
			if col.Op == "elem" {
				col = col.A[0]
			}
			tb, key := lookupOf(col)
			if c.Check(tb != "" && isNameOf(key, tr), "deliver-handler", fname(f)+"→"+e.Fn, e.Pos, "%s is run on %v, which is not a handler registered for the transition", e.Fn, col) {
				used[e.Fn] = tb
			}
			if e.Fn == fnPostExec {
				good := false
				for _, x := range steps[:i] {
					if x.Fn == fnExec {
						good = same(field(e.Deep[0], "Response"), x.Res[0]) || contains(field(e.Deep[0], "Response"), x.Res[0])
					}
				}
				c.Check(good, "deliver-response", fname(f), e.Pos, "post execution gets %v instead of the response of the execution", field(e.Deep[0], "Response"))
			}
		}
		facts, ok := p.success()
		if !ok {
			// for a reason
			why := p.failedStep() != nil
			for fa, v := range p.facts {
				why = why || !v && fa.Op == "mapok"
				// a decision other than allow
				why = why || !v && fa.Op == "eq" && (fa.A[0].Op == "res" || fa.A[1].Op == "res")
			}
			c.Check(why, "deliver-fails-for-a-reason", fname(f), p.Pos, "delivering fails although nothing failed")
			continue
		}
		okAny = true
		n := 0
		for _, e := range steps {
			if e.Fn == fnExec {
				n++
			}
			c.Check(e.okIn(facts), "deliver-success", fname(f)+"→"+e.Fn, p.Pos, "delivering succeeds although %s may have failed", e.Fn)
		}
		c.Check(n == 1, "deliver-once", fname(f), p.Pos, "the execution handler of a delivered transition runs %d times", n)
		full := true
		for _, k := range kinds {
			if k.fn == fnExec {
				continue
			}
			done, some := c.allHandlersRan(p, facts, k.fn, k.typ, tr)
			c.Check(done == "", "deliver-all", fname(f)+"→"+k.fn, p.Pos, "delivering succeeds although not every %s handler ran, once and in order: %s", k.req, done)
			full = full && some
		}
		okFull = okFull || full
	}
	c.Check(okAny && okFull, "deliver-possible", fname(f), c.P.pos(f.Pos()), "no path delivers a transition with handlers of every kind")
	return used
}

// allHandlersRan: every registered handler of the kind ran, in order.
func (c *Ctx) allHandlersRan(p *Path, facts map[*T]bool, fn, typ string, tr *T) (why string, some bool) {
	ht := c.P.named("runtime/statetransition", typ)
	if ht == nil {
		return "no handler type", false
	}
	none := false
	for fa, v := range facts {
		if fa.Op == "mapok" && !v && isNameOf(fa.A[1], tr) && isMapToSlice(fa.A[0].Typ, ht) {
			none = true
		}
	}
	var ord []*T
	for _, e := range p.calls(fn) {
		r := deepStrip(e.Recv)
		if r.Op == "elem" {
			ord = append(ord, r.A[1])
		} else {
			return "one is not an element of the list", false
		}
	}
	if none && len(ord) == 0 {
		return "", false
	}
	found := false
	for _, col := range colsOf(facts, ht) {
		if _, key := lookupOf(col); key == nil || !isNameOf(key, tr) {
			continue
		}
		found = true
		idx, done := elems(facts, col)
		if !done || len(idx) != len(ord) || !inOrder(facts, ord) {
			return fmt.Sprintf("%d known, ran %v", len(idx), ord), false
		}
	}
	if !found {
		return "they were not looked up", false
	}
	return "", len(ord) > 0
}

// router: the tables read by Deliver and the transaction chains are those
// written when handlers are added.
func (c *Ctx) router(used map[string]string) {
	execT := used[fnExec]
	ex := c.method(rtPkg, "Router", "AddStateTransitionExecutionHandler")
	type tbl struct{ add, get, evt string }
	for _, k := range []tbl{
		{"AddStateTransitionAdmissionHandler", "GetStateTransitionAdmissionHandlers", ""},
		{"AddStateTransitionPreExecutionHandler", "GetStateTransitionPreExecutionHandlers", fnPreExec},
		{"AddStateTransitionExecutionHandler", "GetStateTransitionExecutionHandler", fnExec},
		{"AddStateTransitionPostExecutionHandler", "GetStateTransitionPostExecutionHandlers", fnPostExec},
	} {
		add, get := c.method(rtPkg, "Router", k.add), c.method(rtPkg, "Router", k.get)
		if add == nil || get == nil {
			continue
		}
		// lookups
		table := ""
		g := c.params(get)
		okAny := false
		for _, p := range c.run(get, Cfg{}) {
			if !c.Check(p.Outcome == "return", "router-get", fname(get), p.Pos, "looking up handlers panics") {
				continue
			}
			known, kk := knownTransition(p.facts, execT, g[1])
			_, ok := p.success()
			if !ok {
				c.Check(kk && !known, "router-get", fname(get), p.Pos, "handlers of a known transition are refused")
				c.Check(wraps(p.errRet(), "runtime.ErrTransitionNotFound"), "router-get-error", fname(get), p.Pos, "an unknown transition is reported as %v", p.errRet())
				continue
			}
			okAny = true
			c.Check(kk && known, "router-get", fname(get), p.Pos, "handlers of an unknown transition are returned")
			r := deepStrip(p.RetDeep[0])
			if r.isNil() {
				none := false
				for fa, v := range p.facts {
					if fa.Op == "mapok" && !v && isNameOf(fa.A[1], g[1]) && fa.A[0].Op == "field" && (table == "" || fa.A[0].S == table) {
						none = true
					}
				}
				c.Check(none && k.evt != fnExec, "router-get", fname(get), p.Pos, "no handlers are returned although some may be registered")
				continue
			}
			t, key := lookupOf(r)
			if c.Check(t != "" && isNameOf(key, g[1]) && (table == "" || table == t), "router-get", fname(get), p.Pos, "the handlers returned are %v", r) {
				table = t
			}
		}
		c.Check(okAny && table != "", "router-get", fname(get), c.P.pos(get.Pos()), "handlers are never found")
		if k.evt != "" && used[k.evt] != "" {
			c.Check(used[k.evt] == table, "router-table", fname(get), c.P.pos(get.Pos()), "handlers run are taken from another table than those returned")
		}
		// additions
		a := c.params(add)
		okAny = false
		for _, p := range c.run(add, Cfg{}) {
			if !c.Check(p.Outcome == "return", "router-add", fname(add), p.Pos, "adding a handler panics") {
				continue
			}
			var ups []*Event
			for _, e := range p.Events {
				if e.Kind == "store" {
					ups = append(ups, e)
				}
			}
			known, kk := knownTransition(p.facts, execT, a[1])
			_, ok := p.success()
			if !ok {
				c.Check(len(ups) == 0, "router-refused", fname(add), p.Pos, "a refused handler is added all the same")
				if add == ex {
					c.Check(kk && known && wraps(p.errRet(), "runtime.ErrTransitionAlreadyRegistered"), "router-refused", fname(add), p.Pos, "the first handler of a transition is refused, with %v", p.errRet())
				} else {
					c.Check(kk && !known && wraps(p.errRet(), "runtime.ErrTransitionNotFound"), "router-refused", fname(add), p.Pos, "a handler of a known transition is refused, with %v", p.errRet())
				}
				continue
			}
			okAny = true
			if add == ex {
				c.Check(kk && !known, "router-one-exec", fname(add), p.Pos, "a second execution handler replaces the first")
			} else {
				c.Check(kk && known, "router-known", fname(add), p.Pos, "a handler is added for a transition nobody handles")
			}
			var last *T
			for _, e := range ups {
				t := ""
				if m := deepStrip(e.Args[0]); e.Fn == "mapupdate" && m.Op == "field" {
					t = m.S
				}
				if !c.Check(t == table && isNameOf(e.Args[1], a[1]), "router-add", fname(add), e.Pos, "adding a handler changes %v[%v]", e.Args[0], e.Args[1]) {
					continue
				}
				last = deepStrip(e.Deep[2])
			}
			if !c.Check(last != nil, "router-add", fname(add), p.Pos, "adding a handler does not add it") {
				continue
			}
			if add == ex {
				c.Check(last == deepStrip(a[2]), "router-add", fname(add), p.Pos, "the execution handler added is %v", last)
				continue
			}
			was, wk := decideIn(p.facts, mk("mapok", "", types.Typ[types.Bool], deepStrip(ups[0].Args[0]), deepStrip(ups[0].Args[1])))
			c.Check(appended(last, func(o *T) bool {
				t, key := lookupOf(o)
				return t == table && isNameOf(key, a[1])
			}, a[2], wk && !was), "router-add", fname(add), p.Pos, "adding a handler makes the list %v", last)
		}
		c.Check(okAny, "router-add", fname(add), c.P.pos(add.Pos()), "handlers can not be added")
	}
	// transaction handlers
	for _, k := range [][2]string{{"AddAuthAdmissionHandler", "GetAuthAdmissionHandlers"}, {"AddTransactionPostAuthenticationHandler", "GetTransactionPostAuthenticationHandlers"}} {
		add, get := c.method(rtPkg, "Router", k[0]), c.method(rtPkg, "Router", k[1])
		if add == nil || get == nil {
			continue
		}
		table := ""
		g := c.params(get)
		for _, p := range c.run(get, Cfg{}) {
			r := deepStrip(p.RetDeep[0])
			for r.Op == "append" && r.A[0].isNil() {
				r = r.A[1]
			}
			if c.Check(p.Outcome == "return" && r.Op == "field" && r.A[0] == deepStrip(g[0]), "router-get", fname(get), p.Pos, "the handlers returned are %v", p.RetDeep) {
				table = r.S
			}
		}
		a := c.params(add)
		for _, p := range c.run(add, Cfg{}) {
			n := 0
			for _, e := range p.Events {
				if e.Kind != "store" {
					continue
				}
				n++
				to := strip(e.Args[0])
				good := to.Op == "faddr" && to.S == table && appended(deepStrip(e.Deep[1]), func(o *T) bool {
					return o.Op == "field" && o.S == table && o.A[0] == deepStrip(a[0])
				}, a[1], false)
				c.Check(good, "router-add", fname(add), e.Pos, "adding a handler sets %v to %v", to, e.Deep[1])
			}
			c.Check(n == 1 && p.Outcome == "return", "router-add", fname(add), p.Pos, "adding a handler makes %d changes", n)
		}
	}
	// nobody else changes the tables
	rt := c.P.named(rtPkg, "Router")
	if rt == nil {
		return
	}
	roots := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if strings.HasPrefix(fname(f), "(*runtime.Router).Add") || fname(f) == "runtime.NewRouter" {
			roots[f] = true
		}
	}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var at ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					at = x.Addr
				case *ssa.MapUpdate:
					at = x.Map
					if u, ok := at.(*ssa.UnOp); ok {
						at = u.X
					}
				}
				fa, ok := at.(*ssa.FieldAddr)
				if !ok || !isPtrTo(fa.X.Type(), rt) {
					continue
				}
				bad := c.reachedOnlyFrom(f, roots)
				c.Check(bad == nil, "router-writers", fname(f), c.P.pos(in.Pos()), "%s changes the tables of the router", fname(f))
			}
		}
	}
}

func wraps(err *T, name string) bool {
	for _, s := range wrappedErrs(err) {
		if s == name {
			return true
		}
	}
	return false
}

// knownTransition: is the transition known to have an execution handler?
func knownTransition(facts map[*T]bool, table string, tr *T) (bool, bool) {
	for fa, v := range facts {
		if fa.Op == "mapok" && fa.A[0].Op == "field" && fa.A[0].S == table && isNameOf(fa.A[1], tr) {
			return v, true
		}
	}
	return false, false
}

// appended: l is the old list followed by x (or only x when there was none).
func appended(l *T, old func(*T) bool, x *T, wasNone bool) bool {
	l = deepStrip(l)
	one := func(t *T) bool { return t.Op == "slicelit" && len(t.A) == 1 && same(t.A[0], x) }
	if one(l) {
		return wasNone
	}
	return l.Op == "append" && old(deepStrip(l.A[0])) && one(deepStrip(l.A[1]))
}

// ---------------------------------------------------------------- C23

func c23(c *Ctx) {
	c.buildInstalls()
	c.descriptorBuilder()
	c.modulesAdded()
}

type install struct {
	list string           // field of the descriptor
	call string           // registering call
	args func(el *T) []*T // its arguments for an element
	errs bool             // can fail
	fld  []string
}

func (c *Ctx) buildInstalls() {
	f := c.method(rtPkg, "Builder", "Build")
	if f == nil {
		return
	}
	R := "(*runtime.Router)."
	ins := []install{
		{list: "StateObjects", call: "(runtime/orm.Store).RegisterObject", fld: []string{"StateObject", "SchemaDefinition"}, errs: true},
		{list: "StateTransitionExecutionHandlers", call: R + "AddStateTransitionExecutionHandler", fld: []string{"StateTransition", "Handler"}, errs: true},
		{list: "StateTransitionAdmissionHandlers", call: R + "AddStateTransitionAdmissionHandler", fld: []string{"StateTransition", "AdmissionHandler"}, errs: true},
		{list: "StateTransitionPreExecHandlers", call: R + "AddStateTransitionPreExecutionHandler", fld: []string{"StateTransition", "Handler"}, errs: true},
		{list: "StateTransitionPostExecutionHandlers", call: R + "AddStateTransitionPostExecutionHandler", fld: []string{"StateTransition", "Handler"}, errs: true},
		{list: "AuthAdmissionHandlers", call: R + "AddAuthAdmissionHandler"},
		{list: "PostAuthenticationHandler", call: R + "AddTransactionPostAuthenticationHandler"},
		{list: "Needs", call: R + "GetStateTransitionExecutionHandler", errs: true},
		{list: "Services", call: "(*runtime.ServiceGroup).AddServices"},
	}
	calls := map[string]bool{}
	for _, i := range ins {
		calls[i.call] = true
	}
	cfg := Cfg{Generic: true, LoopK: 1, Opaque: func(n string) bool { return calls[n] }, OpaqueFn: c.returnsType("runtime/authorization", "Authorizer")}
	okAny := false
	visited := map[string]bool{}
	decFld := c.decoderFields()
	for _, p := range c.run(f, cfg) {
		if p.Outcome != "return" {
			continue // starting the database can fail
		}
		facts, ok := p.success()
		if !ok {
			continue
		}
		okAny = true
		col := moduleList(facts)
		if !c.Check(col != nil, "build-modules", fname(f), p.Pos, "a runtime is built without looking at the modules") {
			continue
		}
		mods, done := elems(facts, col)
		c.Check(done, "build-modules", fname(f), p.Pos, "a runtime is built although not every module was looked at")
		var effects []*Event
		for _, e := range p.Events {
			if e.Kind == "call" && calls[e.Fn] {
				effects = append(effects, e)
			}
		}
		claimed := map[*Event]bool{}
		for _, m := range mods {
			d := mkElem(col, m, nil)
			nm := mkField(d, "Name", types.Typ[types.String])
			empty, k := lenZeroOf(facts, deepStrip(nm))
			c.Check(k && !empty, "build-named", fname(f), p.Pos, "a module without a name is accepted")
			for _, in := range ins {
				l := deepStrip(mkField(d, in.list, nil))
				if in.list == "Services" {
					c.servicesAdded(p, facts, f, d, l, in, claimed, visited)
					continue
				}
				idx, fin := elems(facts, l)
				if n, isn := isNilIn(facts, l); isn && n {
					idx, fin = nil, true
				}
				c.Check(fin, "build-all", fname(f)+" "+in.list, p.Pos, "a runtime is built although not all %s of a module were looked at", in.list)
				var ord []*Event
				for _, i := range idx {
					el := mkElem(l, i, nil)
					var got *Event
					for _, e := range effects {
						if e.Fn != in.call {
							continue
						}
						want := []*T{el}
						if in.fld != nil {
							want = nil
							for _, x := range in.fld {
								want = append(want, mkField(el, x, nil))
							}
						}
						as := e.Args[len(e.Args)-len(want):]
						eq := true
						for n := range want {
							eq = eq && same(as[n], want[n])
						}
						if eq && (!in.errs || e.okIn(facts)) {
							c.Check(!claimed[e] && (got == nil || in.list == "Needs"), "build-once", fname(f)+" "+in.list, e.Pos, "an element of %s is registered twice", in.list)
							got = e
							claimed[e] = true
						}
					}
					visited[in.list] = true
					if c.Check(got != nil, "build-installs", fname(f)+" "+in.list, p.Pos, "a runtime is built although an element of %s may not be installed", in.list) {
						ord = append(ord, got)
					}
				}
				for n := 1; n < len(ord); n++ {
					c.Check(ord[n-1].Seq < ord[n].Seq, "build-order", fname(f)+" "+in.list, p.Pos, "the elements of %s are installed out of order", in.list)
				}
			}
		}
		for _, e := range effects {
			if strings.HasSuffix(e.Fn, "GetStateTransitionExecutionHandler") {
				continue
			}
			c.Check(claimed[e], "build-nothing-else", fname(f)+"→"+e.Fn, e.Pos, "%s is called with something no module declares: %v", e.Fn, e.Args)
		}
	}
	for _, in := range ins {
		c.Check(visited[in.list], "build-possible", fname(f)+" "+in.list, c.P.pos(f.Pos()), "no %s can be installed", in.list)
	}
	c.Check(okAny, "build-possible", fname(f), c.P.pos(f.Pos()), "nothing can be built")
	// what is installed is what is run: the store and modules handed to the runtime
	for _, p := range c.run(f, cfg) {
		facts, ok := p.success()
		if p.Outcome != "return" || !ok {
			continue
		}
		var store, mods, dec, users *T
		for _, e := range p.Events {
			if e.Kind != "store" || e.Args[0].Op != "faddr" {
				continue
			}
			switch e.Args[0].S {
			case "store":
				if isRuntimeField(e.Args[0]) {
					store = e.Deep[1]
				}
			case "modules":
				mods = e.Deep[1]
			case "txDecoder":
				dec = e.Args[1]
			case "user":
				users = e.Deep[1]
			}
		}
		c.Check(mods != nil && same(mods, moduleList(facts)), "build-runtime", fname(f)+" modules", p.Pos, "the modules of the runtime are %v", mods)
		regs := p.calls("(runtime/orm.Store).RegisterObject")
		c.Check(store != nil, "build-runtime", fname(f)+" store", p.Pos, "the runtime gets no store")
		for _, r := range regs {
			c.Check(store != nil && same(r.Deep[0], store), "build-runtime", fname(f)+" store", r.Pos, "objects are registered in another store than the runtime's")
		}
		c.Check(users != nil, "build-runtime", fname(f)+" user", p.Pos, "the runtime gets no identity")
		// decoder: the one given or one that always fails
		if c.Check(dec != nil, "build-decoder", fname(f), p.Pos, "the runtime gets no transaction decoder") {
			ct, _ := boxed(dec)
			x := deepStrip(dec)
			if x.Op == "field" && decFld[x.S] {
				n, k := isNilIn(facts, x)
				c.Check(k && !n, "build-decoder", fname(f), p.Pos, "the runtime may get a nil decoder")
			} else {
				c.Check(ct != nil && c.alwaysFails(ct, "DecodeTx"), "build-decoder", fname(f), p.Pos, "the decoder is %v", dec)
				n, k := decoderGiven(facts, decFld)
				c.Check(k && n, "build-decoder", fname(f), p.Pos, "the decoder given to the builder is not used")
			}
		}
	}
}

func isRuntimeField(t *T) bool {
	b := t.A[0]
	return b.Typ == nil || strings.HasSuffix(shortT(b.Typ), "runtime.Runtime")
}

// decoderFields: the fields of the builder that hold the decoder it was given.
func (c *Ctx) decoderFields() map[string]bool {
	out := map[string]bool{}
	f := c.method(rtPkg, "Builder", "SetDecoder")
	if f == nil {
		return out
	}
	a := c.params(f)
	for _, p := range c.run(f, Cfg{}) {
		got := map[string]bool{}
		for _, e := range p.Events {
			if e.Kind == "store" && e.Args[0].Op == "faddr" && same(e.Args[0].A[0], a[0]) && same(e.Args[1], a[1]) {
				got[e.Args[0].S] = true
				out[e.Args[0].S] = true
			}
		}
		c.Check(p.Outcome == "return" && len(got) > 0, "build-decoder", fname(f), p.Pos, "the decoder given is not kept")
	}
	return out
}

func decoderGiven(facts map[*T]bool, fld map[string]bool) (bool, bool) {
	for fa, v := range facts {
		if fa.Op == "eq" && fa.A[1].isNil() && fa.A[0].Op == "field" && fld[fa.A[0].S] {
			return v, true
		}
	}
	return false, false
}

// alwaysFails: the method of the type never succeeds.
func (c *Ctx) alwaysFails(t types.Type, m string) bool {
	f := c.methodFor(t, m)
	if f == nil {
		return false
	}
	n := 0
	for _, p := range c.run(f, Cfg{}) {
		if _, ok := p.success(); ok || p.Outcome != "return" {
			return false
		}
		n++
	}
	return n > 0
}

// returnsType: functions with a result of the named type are not entered.
func (c *Ctx) returnsType(pkg, name string) func(*ssa.Function) bool {
	n := c.P.named(pkg, name)
	return func(f *ssa.Function) bool {
		if n == nil {
			return false
		}
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if types.Identical(rs.At(i).Type(), n) {
				return true
			}
		}
		return false
	}
}

func (c *Ctx) servicesAdded(p *Path, facts map[*T]bool, f *ssa.Function, d, l *T, in install, claimed map[*Event]bool, visited map[string]bool) {
	nm := mkField(d, "Name", types.Typ[types.String])
	whole := 0
	for _, e := range p.calls(in.call) {
		n := len(e.Args)
		if same(e.Args[n-2], nm) && same(e.Args[n-1], l) {
			whole++
			claimed[e] = true
		}
	}
	if whole == 0 {
		idx, done := elems(facts, l)
		for _, i := range idx {
			for _, e := range p.calls(in.call) {
				n := len(e.Args)
				a := deepStrip(e.Deep[n-1])
				if same(e.Args[n-2], nm) && a.Op == "slicelit" && len(a.A) == 1 && same(a.A[0], mkElem(l, i, nil)) {
					claimed[e] = true
					done = done && true
					whole++
				}
			}
		}
		if done && whole == len(idx) {
			visited[in.list] = visited[in.list] || len(idx) > 0
			c.Check(true, "build-installs", fname(f)+" "+in.list, p.Pos, "")
			return
		}
		whole = -1
	}
	visited[in.list] = true
	c.Check(whole == 1, "build-installs", fname(f)+" "+in.list, p.Pos, "a runtime is built although the services of a module may not be installed (once)")
}

// descriptorBuilder: every method adds its arguments to the list of its kind.
func (c *Ctx) descriptorBuilder() {
	type m struct {
		name, list string
		flds       []string // of the element; nil: the argument itself
	}
	ms := []m{
		{"HandlesStateTransition", "StateTransitionExecutionHandlers", []string{"StateTransition", "Handler"}},
		{"HandlesAdmission", "StateTransitionAdmissionHandlers", []string{"StateTransition", "AdmissionHandler"}},
		{"OwnsStateObject", "StateObjects", []string{"StateObject", "SchemaDefinition"}},
		{"NeedsStateTransition", "Needs", nil},
		{"WithAuthAdmissionHandler", "AuthAdmissionHandlers", nil},
		{"WithPostAuthenticationHandler", "PostAuthenticationHandler", nil},
		{"WithPostStateTransitionHandler", "StateTransitionPostExecutionHandlers", []string{"StateTransition", "Handler"}},
		{"WithExtensionService", "Services", nil},
		{"Named", "Name", nil},
		{"WithGenesis", "GenesisHandler", nil},
		{"IsAuthorizer", "Authorizer", nil},
	}
	for _, x := range ms {
		f := c.method("runtime/module", "DescriptorBuilder", x.name)
		if f == nil {
			continue
		}
		a := c.params(f)
		for _, p := range c.run(f, Cfg{}) {
			if !c.Check(p.Outcome == "return", "descriptor-builder", fname(f), p.Pos, "%s panics", fname(f)) {
				continue
			}
			c.Check(same(p.Ret[0], a[0]), "descriptor-builder", fname(f), p.Pos, "%s returns another builder", fname(f))
			n := 0
			for _, e := range p.Events {
				if e.Kind != "store" {
					continue
				}
				n++
				to := strip(e.Args[0])
				v := deepStrip(e.Deep[1])
				good := to.Op == "faddr" && to.S == x.list
				switch {
				case x.list == "Name" || x.list == "GenesisHandler" || x.list == "Authorizer":
					good = good && same(v, a[1])
				case x.flds == nil:
					good = good && appended(v, func(o *T) bool { return o.Op == "field" && o.S == x.list }, a[1], false)
				default:
					good = good && v.Op == "append" && v.A[0].Op == "field" && v.A[0].S == x.list && v.A[1].Op == "slicelit" && len(v.A[1].A) == 1
					if good {
						for i, fl := range x.flds {
							good = good && same(field(v.A[1].A[0], fl), a[1+i])
						}
					}
				}
				c.Check(good, "descriptor-builder", fname(f), e.Pos, "%s sets %v to %v", fname(f), to, v)
			}
			c.Check(n == 1, "descriptor-builder", fname(f), p.Pos, "%s makes %d changes", fname(f), n)
		}
	}
	if f := c.method("runtime/module", "DescriptorBuilder", "Build"); f != nil {
		a := c.params(f)
		for _, p := range c.run(f, Cfg{}) {
			r := deepStrip(p.Ret[0])
			ok := p.Outcome == "return"
			if ok {
				for r.Op == "deref" {
					r = r.A[0]
				}
				ok = (r.Op == "field" || r.Op == "faddr") && r.A[0] == deepStrip(a[0])
			}
			c.Check(ok, "descriptor-builder", fname(f), p.Pos, "the descriptor built is %v", r)
		}
	}
}

// modulesAdded: AddModule initialises the module once and appends its
// descriptor.
func (c *Ctx) modulesAdded() {
	f := c.method(rtPkg, "Builder", "AddModule")
	if f == nil {
		return
	}
	a := c.params(f)
	for _, p := range c.run(f, Cfg{}) {
		if !c.Check(p.Outcome == "return", "add-module", fname(f), p.Pos, "adding a module panics") {
			continue
		}
		in := p.calls("(runtime/module.Module).Initialize")
		if !c.Check(len(in) == 1 && same(in[0].Recv, a[1]), "add-module", fname(f), p.Pos, "a module is initialised %d times", len(in)) {
			continue
		}
		n := 0
		for _, e := range p.Events {
			if e.Kind != "store" || e.Args[0].Op != "faddr" || e.Args[0].S != "moduleDescriptors" {
				continue
			}
			n++
			c.Check(appended(deepStrip(e.Deep[1]), func(o *T) bool { return o.Op == "field" && o.S == "moduleDescriptors" }, in[0].Res[0], false), "add-module", fname(f), e.Pos, "the modules become %v", e.Deep[1])
		}
		c.Check(n == 1, "add-module", fname(f), p.Pos, "adding a module changes the list of modules %d times", n)
	}
}
