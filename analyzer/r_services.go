package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "Starting and stopping the group of services are enumerated for every list of services and every failing step: order and number of the calls on every service, the client each is given before it starts, and the error returned. The names under which services run, the list that registration extends, and the services of the repository themselves are followed in the same way.", c30)
}

const svcPrefix = "(runtime/module.ExtensionService)."

func c30(c *Ctx) {
	start := c.method("runtime", "ServiceGroup", "Start")
	stop := c.method("runtime", "ServiceGroup", "Stop")
	add := c.method("runtime", "ServiceGroup", "AddServices")
	if start == nil || stop == nil || add == nil {
		return
	}
	c.servicesStart(start)
	c.servicesStop(stop)
	c.servicesAdd(add)
	c.serviceNames()
	c.ownServices()
}

// svcList is the slice of services that an event's receiver is an element of.
func svcElem(recv, group *T) (list, idx *T) {
	x := findTerm(deepStrip(recv), func(x *T) bool {
		return x.Op == "elem" && x.A[0].Op == "field" && x.A[0].A[0] == group
	})
	if x == nil {
		return nil, nil
	}
	return x.A[0], x.A[1]
}

type svcCall struct {
	e    *Event
	what string
	idx  *T
}

// svcCalls lists the calls on services in order.
func (c *Ctx) svcCalls(p *Path, f *ssa.Function, group *T) (out []svcCall, list *T) {
	for _, e := range p.Events {
		if !strings.HasPrefix(e.Fn, svcPrefix) || strings.HasSuffix(e.Fn, ".Name") {
			continue
		}
		c.Check(e.Kind == "call", "services-sequential", fname(f), e.Pos, "services are called concurrently")
		l, i := svcElem(e.Recv, group)
		if !c.Check(l != nil && (list == nil || list == l), "services-element", fname(f), e.Pos, "%s is called on %v", e.Fn, e.Recv) {
			continue
		}
		list = l
		out = append(out, svcCall{e, strings.TrimPrefix(e.Fn, svcPrefix), i})
	}
	return
}

func (c *Ctx) groupList0(f *ssa.Function, group *T) *T {
	// the list of services, for paths that do not touch any
	st, ok := types.Unalias(f.Signature.Recv().Type().(*types.Pointer).Elem()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			return mkField(group, st.Field(i).Name(), st.Field(i).Type())
		}
	}
	return nil
}

func (c *Ctx) servicesStart(f *ssa.Function) {
	ps := c.params(f)
	group, store := deepStrip(ps[0]), deepStrip(ps[1])
	list0 := c.groupList0(f, group)
	if list0 == nil {
		c.Fail("anchor:services", "-", "the list of services was not found")
		return
	}
	several := false
	for _, p := range c.run(f, Cfg{}) {
		if !c.Check(p.Outcome == "return", "services-start", fname(f), p.Pos, "starting the services can panic") {
			continue
		}
		calls, list := c.svcCalls(p, f, group)
		if list == nil {
			list = list0
		}
		var order []*T
		var last *svcCall
		given := map[*T]*Event{}
		for i := range calls {
			s := &calls[i]
			switch s.what {
			case "SetClient":
				c.Check(given[s.idx] == nil, "services-client", fname(f), s.e.Pos, "a service is given two clients")
				given[s.idx] = s.e
				c.svcClient(p, f, s, mkElem(list, s.idx, nil), store)
			case "Start":
				c.Check(given[s.idx] != nil, "services-client", fname(f), s.e.Pos, "a service is started without having a client")
				c.Check(last == nil || last.e.okIn(p.facts), "services-start", fname(f), s.e.Pos, "a service is started after another one failed to start")
				order = append(order, s.idx)
				last = s
			default:
				c.Check(false, "services-start", fname(f), s.e.Pos, "starting the services calls %s", s.e.Fn)
			}
		}
		c.Check(inOrder(p.facts, order), "services-order", fname(f), p.Pos, "services are not started once each in the order of their registration: %v", order)
		facts, ok := p.success()
		if !ok || last != nil && last.e.failedIn(p.facts) {
			bad := last != nil && last.e.failedIn(p.facts)
			c.Check(bad, "services-start", fname(f), p.Pos, "the start fails although no service failed")
			if bad {
				c.Check(!ok && contains(p.errRet(), deepStrip(last.e.Res[0])) && wrapsValue(p.errRet(), last.e.Res[0]), "services-error", fname(f), p.Pos, "the failure of a service is reported as %v", p.errRet())
			}
			continue
		}
		idx, done := elems(facts, list)
		c.Check(done && len(idx) == len(order), "services-all", fname(f), p.Pos, "the start succeeds although not every service was started")
		if last != nil {
			c.Check(last.e.okIn(facts), "services-error", fname(f), p.Pos, "the start succeeds although a service may have failed")
		}
		several = several || len(order) > 1
	}
	c.Check(several, "services-all", fname(f), "-", "no path starts several services")
}

// wrapsValue: err is x, or an error that wraps it.
func wrapsValue(err, x *T) bool {
	err, x = deepStrip(err), deepStrip(x)
	if err == x {
		return true
	}
	if err == nil || err.Op != "call" {
		return false
	}
	if err.S == "fmt.Errorf" && len(err.A) == 2 {
		s, ok := err.A[0].strVal()
		if !ok || !strings.Contains(s, "%w") {
			return false
		}
		for _, a := range flatList(err.A[1]) {
			if wrapsValue(a, x) {
				return true
			}
		}
	}
	return false
}

// svcClient: the client handed to a service reads the given store in the
// service's name.
func (c *Ctx) svcClient(p *Path, f *ssa.Function, s *svcCall, el, store *T) {
	d := deepStrip(s.e.Deep[0])
	for d.Op == "ref" || d.Op == "iface" {
		d = deepStrip(d.A[0])
	}
	hasStore := false
	var id *T
	if d.Op == "obj" {
		for i, n := range strings.Split(d.S, ";")[1:] {
			v := deepStrip(d.A[i])
			hasStore = hasStore || v == store
			_ = n
			if v.Typ != nil && types.Identical(v.Typ.Underlying(), types.Typ[types.String]) || v.Op == "call" || v.Op == "bin" {
				id = v
			}
		}
	}
	c.Check(hasStore, "services-client", fname(f), s.e.Pos, "a service reads %v instead of the given store", d)
	c.Check(id != nil && c.isServiceName(p, id, el), "services-name", fname(f), s.e.Pos, "a service's client is known as %v", id)
}

// isServiceName: t is module name, dot, name of the service el.
func (c *Ctx) isServiceName(p *Path, t, el *T) bool {
	parts := strParts(t)
	if len(parts) != 3 || parts[1].lit != "." || parts[0].t == nil || parts[2].t == nil || parts[0].lower || parts[2].lower {
		return false
	}
	m := deepStrip(parts[0].t)
	if !(m.Op == "field" && m.A[0] == deepStrip(el) && strings.Contains(m.S, "Module")) {
		return false
	}
	e := p.eventOf(parts[2].t)
	return e != nil && e.Fn == svcPrefix+"Name" && contains(e.Recv, deepStrip(el))
}

func (c *Ctx) servicesStop(f *ssa.Function) {
	group := deepStrip(c.params(f)[0])
	list0 := c.groupList0(f, group)
	if list0 == nil {
		return
	}
	several := false
	for _, p := range c.run(f, Cfg{}) {
		if !c.Check(p.Outcome == "return", "services-stop", fname(f), p.Pos, "stopping the services can panic") {
			continue
		}
		calls, list := c.svcCalls(p, f, group)
		if list == nil {
			list = list0
		}
		var order []*T
		failed := 0
		var bad []*T
		for _, s := range calls {
			if !c.Check(s.what == "Stop", "services-stop", fname(f), s.e.Pos, "stopping the services calls %s", s.e.Fn) {
				continue
			}
			order = append(order, s.idx)
			switch {
			case s.e.failedIn(p.facts):
				failed++
				bad = append(bad, deepStrip(s.e.Res[0]))
			case !s.e.okIn(p.facts):
				// not looked at: may have failed
				bad = append(bad, deepStrip(s.e.Res[0]))
			}
		}
		c.Check(inOrder(p.facts, order), "services-order", fname(f), p.Pos, "services are not stopped once each in the order of their registration: %v", order)
		idx, done := elems(p.facts, list)
		c.Check(done && len(idx) == len(order), "services-all", fname(f), p.Pos, "%d services are stopped, which need not be all", len(order))
		several = several || len(order) > 1
		// what is reported
		got, known := c.reported(p, p.errRet())
		if !c.Check(known, "services-stop-error", fname(f), p.Pos, "the error reported is %v", p.errRet()) {
			continue
		}
		for _, x := range bad {
			n := 0
			for _, y := range got {
				if wrapsValue(y, x) {
					n++
				}
			}
			c.Check(n > 0, "services-stop-error", fname(f), p.Pos, "a service failing to stop is not reported")
		}
		for _, y := range got {
			is := false
			for _, x := range bad {
				is = is || wrapsValue(y, x)
			}
			c.Check(is, "services-stop-error", fname(f), p.Pos, "an error %v is reported although no service failed with it", y)
		}
	}
	c.Check(several, "services-all", fname(f), "-", "no path stops several services")
}

// reported lists the errors that an error stands for.
func (c *Ctx) reported(p *Path, t *T) (out []*T, known bool) {
	c.emptyErr = nil
	t = deepStrip(t)
	for t.Op == "iface" || t.Op == "ref" {
		t = deepStrip(t.A[0])
	}
	if t.isNil() {
		return nil, true
	}
	if e := p.eventOf(t); e != nil {
		switch {
		case strings.HasSuffix(e.Fn, "go-multierror.Error).ErrorOrNil"):
			c.emptyErr = e.Deep[0]
			return c.reportedIn(p, e.Args[0])
		case strings.HasSuffix(e.Fn, "go-multierror.Append"), e.Fn == "errors.Join":
			return c.reportedIn(p, t)
		}
		if v, k := isNilIn(p.facts, t); k && v {
			return nil, true
		}
		return []*T{t}, true
	}
	if t.Op == "call" {
		if t.S == "errors.Join" || strings.HasSuffix(t.S, "go-multierror.Append") {
			return c.reportedIn(p, t)
		}
		return []*T{t}, true
	}
	return nil, false
}

// reportedIn lists the errors collected in a multiple error. Appending to a
// multiple error changes it in place.
func (c *Ctx) reportedIn(p *Path, t *T) (out []*T, known bool) {
	under := func(t *T) *T {
		t = deepStrip(t)
		for t.Op == "iface" || t.Op == "ref" || t.Op == "conv" {
			t = deepStrip(t.A[0])
		}
		return t
	}
	items := func(list *T) bool {
		for _, x := range flatList(list) {
			o, k := c.reportedIn(p, x)
			if !k {
				return false
			}
			out = append(out, o...)
		}
		return true
	}
	t = under(t)
	if t.isNil() {
		return nil, true
	}
	isAppend := func(e *Event) bool { return e != nil && strings.HasSuffix(e.Fn, "go-multierror.Append") }
	if e := p.eventOf(t); e != nil && !isAppend(e) {
		if e.Fn == "errors.Join" || e.Fn == "fmt.Errorf" {
			if e.Fn == "fmt.Errorf" {
				return []*T{t}, true
			}
			return out, items(e.Deep[0])
		}
		if v, k := isNilIn(p.facts, t); k && v {
			return nil, true
		}
		return []*T{t}, true
	}
	if t.Op == "call" {
		switch t.S {
		case "errors.Join":
			return out, items(t.A[0])
		case "fmt.Errorf":
			return []*T{t}, true
		}
		return nil, false
	}
	root := t
	for {
		e := p.eventOf(root)
		if !isAppend(e) {
			break
		}
		root = under(e.Args[0])
	}
	var chain []*Event
	if root.isNil() {
		for x := t; ; {
			e := p.eventOf(x)
			if !isAppend(e) {
				break
			}
			chain = append([]*Event{e}, chain...)
			x = under(e.Args[0])
		}
	} else {
		for _, e := range p.Events {
			if !isAppend(e) {
				continue
			}
			x := under(e.Args[0])
			for isAppend(p.eventOf(x)) {
				x = under(p.eventOf(x).Args[0])
			}
			if x == root {
				chain = append(chain, e)
			}
		}
		d := under(c.P.engine(Cfg{}).deep(p.st, root))
		if len(chain) > 0 {
			d = under(chain[0].Deep[0])
		} else if c.emptyErr != nil {
			d = under(c.emptyErr)
		}
		switch es := field(d, "Errors"); {
		case es != nil:
			for _, x := range flatList(es) {
				out = append(out, deepStrip(x))
			}
		case d.isNil():
		default:
			return nil, false
		}
	}
	for _, e := range chain {
		if !items(e.Deep[1]) {
			return nil, false
		}
	}
	return out, true
}

func (c *Ctx) servicesAdd(f *ssa.Function) {
	ps := c.params(f)
	group, name, xts := deepStrip(ps[0]), deepStrip(ps[1]), deepStrip(ps[2])
	list := c.groupList0(f, group)
	if list == nil {
		return
	}
	several := false
	for _, p := range c.run(f, Cfg{}) {
		if !c.Check(p.Outcome == "return", "services-add", fname(f), p.Pos, "registering services can panic") {
			continue
		}
		idx, done := elems(p.facts, xts)
		c.Check(done && inOrder(p.facts, idx), "services-add", fname(f), p.Pos, "not every service is registered, in order")
		got := list
		for _, e := range p.Events {
			if e.Kind == "store" && len(e.Args) == 2 && e.Args[0].Op == "faddr" && e.Args[0].S == list.S {
				got = e.Deep[1]
			}
		}
		items := flatOver(p.facts, got, xts)
		ok := len(items) == len(idx)+1 && same(items[0], list)
		if len(idx) == 0 && len(items) == 0 {
			ok = lengthZero(p.facts, list)
		}
		c.Check(ok, "services-add", fname(f), p.Pos, "after registering %d services the list is %v", len(idx), got)
		if !ok {
			continue
		}
		for k, i := range idx {
			it := deepStrip(items[k+1])
			hasN, hasS := false, false
			if it.Op == "obj" {
				for _, a := range it.A {
					hasN = hasN || deepStrip(a) == name
					hasS = hasS || same(a, mkElem(xts, i, nil))
				}
			}
			c.Check(hasN && hasS, "services-add", fname(f), p.Pos, "a service is registered as %v", it)
		}
		several = several || len(idx) > 1
	}
	c.Check(several, "services-add", fname(f), "-", "no path registers several services")
}

// svcTypes lists the types of the repository that are services.
func (c *Ctx) svcTypes() []types.Type {
	it := c.P.named("runtime/module", "ExtensionService")
	if it == nil {
		c.Fail("anchor:ExtensionService", "-", "the interface of services was not found")
		return nil
	}
	var out []types.Type
	for _, t := range c.P.implementers(it) {
		if m := c.methodFor(t, "Name"); m != nil && m.Blocks != nil && !strings.Contains(fnPkgPath(m), "testdata") {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// serviceNames: a service that wraps another one is named after module and
// wrapped service.
func (c *Ctx) serviceNames() {
	n := 0
	for _, t := range c.svcTypes() {
		m := c.methodFor(t, "Name")
		if m.Synthetic != "" {
			continue
		}
		for _, p := range c.run(m, Cfg{}) {
			inner := p.callsLike(func(n string) bool { return n == svcPrefix+"Name" })
			if len(inner) == 0 {
				continue
			}
			n++
			self := deepStrip(c.params(m)[0])
			ok := p.Outcome == "return"
			if ok {
				parts := strParts(p.Ret[0])
				ok = len(parts) == 3 && parts[1].lit == "." && parts[0].t != nil && parts[2].t != nil && !parts[0].lower && !parts[2].lower
				if ok {
					x, e := deepStrip(parts[0].t), p.eventOf(parts[2].t)
					ok = x.Op == "field" && contains(x, self) && strings.Contains(x.S, "Module") && e != nil && e.Fn == svcPrefix+"Name" && contains(e.Recv, self)
				}
			}
			c.Check(ok, "services-name", fname(m), p.Pos, "the service of a module is named %v", p.Ret)
		}
	}
	c.Check(n > 0, "services-name", "services", "-", "no service is named after its module")
}

// ownServices: services of the repository read through the client they were
// given, serve in the background and stop what they started.
func (c *Ctx) ownServices() {
	n := 0
	for _, t := range c.svcTypes() {
		set, start, stop := c.methodFor(t, "SetClient"), c.methodFor(t, "Start"), c.methodFor(t, "Stop")
		if set == nil || start == nil || stop == nil || set.Blocks == nil || start.Blocks == nil || stop.Blocks == nil {
			continue
		}
		if set.Synthetic != "" && start.Synthetic != "" {
			continue
		}
		n++
		ps := c.params(set)
		self, cl := ps[0], deepStrip(ps[1])
		for _, p := range c.run(set, Cfg{}) {
			if !c.Check(p.Outcome == "return", "service-client", fname(set), p.Pos, "giving a client to a service can panic") {
				continue
			}
			c.serviceRuns(p, self, cl, start, stop)
		}
	}
	c.Check(n > 0, "service-client", "services", "-", "no service of the repository was found")
}

func isServe(n string) bool {
	return strings.HasPrefix(n, "(*net/http.Server).") && (strings.Contains(n, "Serve")) || strings.HasPrefix(n, "net/http.") && strings.Contains(n, "Serve")
}

func (c *Ctx) serviceRuns(at *Path, self, cl *T, start, stop *ssa.Function) {
	clientT := c.P.named("runtime/client", "Client")
	cfg := Cfg{OpaqueFn: func(g *ssa.Function) bool {
		return strings.HasPrefix(fnPkgPath(g), "core/apiserver/router") || strings.Contains(fname(g), "core/apiserver/router.")
	}}
	served := 0
	for _, p := range c.runFrom(at.st, start, []*T{self}, cfg) {
		facts, ok := p.success()
		// the client used is the one that was given
		for _, e := range p.Events {
			if strings.HasPrefix(e.Fn, "(runtime/client.Client).") && e.Recv != nil {
				c.Check(unconv(deepStrip(e.Recv)) == cl, "service-client", fname(start), e.Pos, "a service uses %v instead of the client it was given", e.Recv)
			}
			if e.CallI != nil && clientT != nil {
				sig := e.CallI.Signature()
				for i := 0; i < sig.Params().Len() && i < len(e.Args); i++ {
					if types.Identical(sig.Params().At(i).Type(), clientT) {
						k := i
						if sig.Recv() != nil && e.Recv == nil {
							k++
						}
						c.Check(k < len(e.Args) && unconv(deepStrip(e.Args[k])) == cl, "service-client", fname(start), e.Pos, "a service hands out %v instead of the client it was given", e.Args)
					}
				}
			}
		}
		for _, e := range p.Events {
			c.Check(e.Kind != "call" || !isServe(e.Fn), "service-background", fname(start), e.Pos, "starting the service does not return while it serves")
		}
		if !ok {
			continue
		}
		_ = facts
		// what serves in the background
		for _, e := range p.Events {
			if e.Kind != "go" {
				continue
			}
			f, args, ps := c.runFunc(p.st, e.Args[0], Cfg{})
			if f == nil {
				if isServe(e.Fn) && len(e.Args) > 1 {
					served++
					c.stops(p, self, deepStrip(e.Args[1]), stop, e.Pos)
				}
				continue
			}
			_ = args
			for _, q := range ps {
				found := false
				for _, x := range q.Events {
					if x.Seq > e.Seq && isServe(x.Fn) {
						found = true
						served++
						c.stops(p, self, deepStrip(x.Args[0]), stop, x.Pos)
					}
				}
				c.Check(found, "service-background", fname(start), e.Pos, "nothing is served in the background")
			}
		}
	}
	if c.servesAnything(start) {
		c.Check(served > 0, "service-background", fname(start), c.P.pos(start.Pos()), "the service never serves")
	}
}

// servesAnything: the service builds a server.
func (c *Ctx) servesAnything(start *ssa.Function) bool {
	return start.Synthetic == "" && strings.Contains(fname(start), "apiserver")
}

// stops: stopping the service after the given start shuts the server down.
func (c *Ctx) stops(at *Path, self, srv *T, stop *ssa.Function, pos string) {
	for _, p := range c.runFrom(at.st, stop, []*T{self}, Cfg{}) {
		down := 0
		for _, e := range p.Events {
			if e.Fn == "(*net/http.Server).Shutdown" || e.Fn == "(*net/http.Server).Close" {
				down++
				c.Check(deepStrip(e.Args[0]) == srv, "service-stop", fname(stop), e.Pos, "stopping the service shuts down %v instead of the server it runs", e.Args[0])
				if _, ok := p.success(); ok {
					// the error of the shutdown decides
					c.Check(e.okIn(p.facts) || p.errRet() == e.Res[0], "service-stop", fname(stop), e.Pos, "the failure to shut down is not reported")
				} else {
					c.Check(wrapsValue(p.errRet(), e.Res[0]), "service-stop", fname(stop), e.Pos, "stopping the service fails with %v", p.errRet())
				}
			}
		}
		c.Check(p.Outcome == "return" && down == 1, "service-stop", fname(stop), p.Pos, "stopping the service shuts the server down %d times", down)
	}
	_ = pos
}
