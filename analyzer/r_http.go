package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", "The builder of the HTTP gateway is followed for singletons and other objects; the routes it installs are read off the path and each installed handler is analysed, with what it captured, for every request: an answer without an error status must be the encoding of exactly the object fetched (or, for lists, of every object the iterator yields, once, in order) by the key, height, range and selections of the request, and an error answer must have a failed step as its reason. The ABCI query handler and the client that asks it are analysed in the same way, and the service that starts the gateway must register every object of every module.", c29)
}

const (
	fnGwHandler  = "core/apiserver/router"
	fnJSON       = "google.golang.org/protobuf/encoding/protojson.Marshal"
	fnNewSchema  = "runtime/orm/schema.NewSchema"
	fnSchNewObj  = "(*runtime/orm/schema.Schema).NewStateObject"
	fnEncPKStr   = "(*runtime/orm/schema.Schema).EncodePrimaryKeyString"
	muxRoute     = "(*github.com/gorilla/mux.Route)."
	muxRouter    = "(*github.com/gorilla/mux.Router)."
	fnURLGet     = "(net/url.Values).Get"
	fnHdrGet     = "(net/http.Header).Get"
	fnForgeList  = "pkg/protoutils/forge.List"
	heightHeader = "X-Starport-Framework-Height"
)

func httpCfg() Cfg {
	return Cfg{Opaque: func(n string) bool {
		return strings.HasPrefix(n, "(*runtime/orm/schema.Schema).") || n == fnNewSchema || n == fnForgeList ||
			strings.HasPrefix(n, "(core/apiserver/router.openAPI).") || strings.HasPrefix(n, "(*core/apiserver/router.openAPI).") ||
			strings.HasPrefix(n, "(runtime/orm.Iterator).") || strings.HasPrefix(n, "(runtime/orm.Store).") ||
			strings.HasPrefix(n, "(*runtime/orm/schema.Registry).")
	}, Impure: func(n string) bool {
		return n == fnSchNewObj || n == "(google.golang.org/protobuf/reflect/protoreflect.MessageType).New" || n == "(core/meta.StateObject).NewStateObject"
	}}
}

// strPart is a piece of a built string: literal text or a value.
type strPart struct {
	lit   string
	t     *T
	lower bool
}

// strParts decomposes a string expression.
func strParts(t *T) []strPart {
	t = deepStrip(t)
	for t.Op == "conv" {
		t = deepStrip(t.A[0])
	}
	if s, ok := t.strVal(); ok {
		if s == "" {
			return nil
		}
		return []strPart{{lit: s}}
	}
	switch {
	case t.Op == "bin" && t.S == "+":
		return joinParts(strParts(t.A[0]), strParts(t.A[1]))
	case t.Op == "call" && t.S == "strings.ToLower":
		ps := strParts(t.A[0])
		for i := range ps {
			ps[i].lower = true
			ps[i].lit = strings.ToLower(ps[i].lit)
		}
		return ps
	case t.Op == "call" && t.S == "strings.Join" && len(t.A) == 2 && t.A[0].Op == "slicelit":
		var out []strPart
		for i, a := range t.A[0].A {
			if i > 0 {
				out = joinParts(out, strParts(t.A[1]))
			}
			out = joinParts(out, strParts(a))
		}
		return out
	case t.Op == "call" && t.S == "fmt.Sprintf":
		f, ok := t.A[0].strVal()
		if !ok {
			return []strPart{{t: t}}
		}
		var args []*T
		if len(t.A) > 1 && t.A[1].Op == "slicelit" {
			args = t.A[1].A
		}
		var out []strPart
		for len(f) > 0 {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				out = joinParts(out, []strPart{{lit: f}})
				break
			}
			if i > 0 {
				out = joinParts(out, []strPart{{lit: f[:i]}})
			}
			if i+1 >= len(f) {
				return []strPart{{t: t}}
			}
			switch f[i+1] {
			case '%':
				out = joinParts(out, []strPart{{lit: "%"}})
			case 's', 'v':
				if len(args) == 0 {
					return []strPart{{t: t}}
				}
				out = joinParts(out, strParts(args[0]))
				args = args[1:]
			default:
				return []strPart{{t: t}}
			}
			f = f[i+2:]
		}
		if len(args) > 0 {
			return []strPart{{t: t}}
		}
		return out
	}
	return []strPart{{t: t}}
}

func joinParts(a, b []strPart) []strPart {
	for _, x := range b {
		if n := len(a); n > 0 && a[n-1].t == nil && x.t == nil {
			a = append(append([]strPart{}, a[:n-1]...), strPart{lit: a[n-1].lit + x.lit})
			continue
		}
		a = append(append([]strPart{}, a...), x)
	}
	return a
}

func showParts(ps []strPart) string {
	s := ""
	for _, p := range ps {
		switch {
		case p.t == nil:
			s += p.lit
		case p.lower:
			s += "lower(" + p.t.String() + ")"
		default:
			s += "(" + p.t.String() + ")"
		}
	}
	return s
}

type gwRoute struct {
	parts []strPart
	get   bool
	h     *T
	pos   string
}

// eventOf finds the event that produced a result term.
func (p *Path) eventOf(t *T) *Event {
	t = deepStrip(t)
	for _, e := range p.Events {
		for _, r := range e.Res {
			if deepStrip(r) == t {
				return e
			}
		}
	}
	return nil
}

// gwRoutes lists the routes installed on a path.
func gwRoutes(p *Path) (out []gwRoute) {
	for _, e := range p.Events {
		n := e.Fn
		if e.Kind != "call" || !strings.HasPrefix(n, "(*github.com/gorilla/mux.Route") {
			continue
		}
		switch {
		case strings.HasSuffix(n, ".HandlerFunc"), strings.HasSuffix(n, ".Handler"), strings.HasSuffix(n, ".Handle"), strings.HasSuffix(n, ".HandleFunc"):
		default:
			continue
		}
		r := gwRoute{h: unconv(e.Args[len(e.Args)-1]), pos: e.Pos}
		if strings.HasPrefix(n, muxRouter) {
			r.parts = strParts(e.Deep[1])
		}
		// what the route matches is added before or after its handler
		id := deepStrip(e.Args[0])
		chain := map[*T]bool{id: true}
		for again := true; again; {
			again = false
			for _, x := range p.Events {
				if x.Kind != "call" || !strings.HasPrefix(x.Fn, "(*github.com/gorilla/mux.Route") || len(x.Res) == 0 || len(x.Args) == 0 {
					continue
				}
				res, recv := deepStrip(x.Res[0]), deepStrip(x.Args[0])
				if strings.HasPrefix(x.Fn, muxRoute) && chain[res] != chain[recv] {
					chain[res], chain[recv] = true, true
					again = true
				}
			}
		}
		for _, x := range p.Events {
			if x.Kind != "call" || len(x.Res) == 0 || !chain[deepStrip(x.Res[0])] || !strings.HasPrefix(x.Fn, "(*github.com/gorilla/mux.Route") {
				continue
			}
			switch x.Fn[strings.LastIndex(x.Fn, ".")+1:] {
			case "Path":
				r.parts = strParts(x.Deep[1])
			case "Handle", "HandleFunc":
				if strings.HasPrefix(x.Fn, muxRouter) {
					r.parts = strParts(x.Deep[1])
				}
			case "Methods":
				if l := deepStrip(x.Deep[1]); l.Op == "slicelit" {
					for _, m := range l.A {
						if s, ok := m.strVal(); ok && s == "GET" {
							r.get = true
						}
					}
				}
			}
		}
		out = append(out, r)
	}
	return
}

// wr is a write to the response.
type wr struct {
	ev   *Event
	code int64 // of WriteHeader and Error, 0 otherwise
	body *T    // of Write
}

func responses(p *Path, w *T, from int) (out []wr) {
	is := func(t *T) bool { return t != nil && deepStrip(t) == deepStrip(w) }
	for _, e := range p.Events {
		if e.Kind != "call" || e.Seq < from {
			continue
		}
		switch {
		case is(e.Recv) && strings.HasSuffix(e.Fn, ").WriteHeader"):
			n, ok := e.Args[0].intVal()
			if !ok {
				n = -1
			}
			out = append(out, wr{ev: e, code: n})
		case is(e.Recv) && strings.HasSuffix(e.Fn, ").Write"):
			out = append(out, wr{ev: e, body: deepStrip(e.Args[0])})
		case e.Fn == "net/http.Error" && is(e.Args[0]):
			n, ok := e.Args[2].intVal()
			if !ok {
				n = -1
			}
			out = append(out, wr{ev: e, code: n})
		case len(e.Args) > 0 && is(e.Args[0]):
			out = append(out, wr{ev: e, body: mkNil(nil)})
		}
	}
	return
}

// reasonFor: the path knows of a failed step, or looked at a part of a text.
func reasonFor(p *Path, from int) bool {
	if stepFailed(p, from) {
		return true
	}
	for _, f := range p.Facts {
		if f.Seq < from {
			continue
		}
		a := f.Atom
		switch {
		case findTerm(a, func(x *T) bool {
			return x.Op == "call" && (strings.HasPrefix(x.S, "strings.Split") || strings.HasPrefix(x.S, "strings.Cut") || strings.HasPrefix(x.S, "strings.Index") || strings.HasPrefix(x.S, "strings.Contains"))
		}) != nil:
			return true
		case a.Op == "eq" && f.Val && findTerm(a.A[0], func(x *T) bool { return x.Op == "call" && strings.HasPrefix(x.S, "strconv.ParseUint#0") }) != nil:
			return true
		}
	}
	return false
}

// valuePart: the part of a selection after its first =.
func valuePart(t *T) bool {
	t = deepStrip(t)
	switch t.Op {
	case "elem":
		n, ok := t.A[1].intVal()
		return ok && n != 0 && t.A[0].Op == "call" && strings.HasPrefix(t.A[0].S, "strings.Split")
	case "call":
		return strings.HasPrefix(t.S, "strings.Cut#1")
	case "slice":
		return t.A[2].isNil() && !t.A[1].isNil()
	}
	return false
}

// stepFailed: the path knows of a step that reported an error, or of a failed
// lookup.
func stepFailed(p *Path, from int) bool {
	for _, f := range p.Facts {
		a := f.Atom
		if f.Seq >= from && !f.Val && (a.Op == "mapok" || a.Op == "eq" && a.A[1].isNil() && isErrType(a.A[0].Typ)) {
			return true
		}
	}
	return false
}

// optValue applies functional options to an empty option record.
func (c *Ctx) optValue(st *state, opts *T, rec types.Type) (*T, bool) {
	e := c.P.engine(Cfg{})
	st = st.clone()
	st.frames = nil
	a := e.newAlloc(st, "options "+rec.String(), types.NewPointer(rec))
	opts = deepStrip(opts)
	if opts.isNil() {
		return e.deep(st, a), true
	}
	if opts.Op != "slicelit" {
		return nil, false
	}
	for _, o := range opts.A {
		f, bound, free := c.target(o)
		if f == nil || f.Blocks == nil {
			return nil, false
		}
		ps := c.runClosure(st, f, append(append([]*T{}, bound...), a), free, Cfg{})
		if len(ps) != 1 || ps[0].Outcome != "return" {
			return nil, false
		}
		st = ps[0].st.clone()
		st.frames = nil
	}
	return e.deep(st, a), true
}

func c29(c *Ctx) {
	f := c.method("core/apiserver/router", "Builder", "CreateStateObjectHandler")
	if f == nil {
		return
	}
	c.gatewayRoutes(f)
	c.gatewayModules(f)
	c.gatewayService(f)
	c.abciQuery()
	c.groupList()
	c.rpcClient()
}

func (c *Ctx) gatewayRoutes(f *ssa.Function) {
	obj, def := mk("param", f.Params[1].Name(), nil), mk("param", f.Params[2].Name(), nil)
	single := mk("field", "Singleton", nil, def)
	pk := mkField(def, "PrimaryKey", nil)
	apidef := mk("call", "(core/meta.APIObject).APIDefinition", nil, obj)
	base := []strPart{{lit: "/"}, {t: mkField(apidef, "Group", nil), lower: true}, {lit: "/"}, {t: mkField(apidef, "Kind", nil), lower: true}}
	with := func(more ...strPart) string { return showParts(joinParts(append([]strPart{}, base...), more)) }
	seen := map[string]bool{}
	n := 0
	for _, p := range c.run(f, httpCfg()) {
		if p.Outcome != "return" {
			// the list handler's constructor: building the list type failed
			c.Check(c.lastFailed(p), "routes", fname(f), p.Pos, "registering an object can panic although no step failed")
			continue
		}
		facts, ok := p.success()
		if !ok {
			c.Check(reasonFor(p, 0), "routes", fname(f), p.Pos, "an object is refused although no step failed")
			continue
		}
		for _, e := range p.Events {
			if e.Kind == "call" && len(e.Res) > 0 && isErrType(e.Res[len(e.Res)-1].Typ) {
				c.Check(e.okIn(facts), "routes", fname(f), e.Pos, "an object is registered although %s may have failed", e.Fn)
			}
		}
		isSingle, known := decideIn(facts, single)
		c.Check(known, "routes", fname(f), p.Pos, "the routes do not depend on whether the object is a singleton")
		var sch *T
		for _, e := range p.calls(fnNewSchema) {
			if same(e.Args[0], obj) && same(e.Args[1], def) && e.okIn(facts) {
				sch = deepStrip(e.Res[0])
			}
		}
		if !c.Check(sch != nil, "routes", fname(f), p.Pos, "routes are installed without the schema of the object's definition") {
			continue
		}
		want := map[string]string{}
		if isSingle {
			want[with()] = "singleton"
		} else {
			want[with(strPart{lit: "/{"}, strPart{t: deepStrip(pk)}, strPart{lit: "}"})] = "get"
			want[with(strPart{lit: "s"})] = "list"
		}
		for _, r := range gwRoutes(p) {
			path := showParts(r.parts)
			kind := want[path]
			if !c.Check(kind != "", "route-path", fname(f), r.pos, "a route is installed at %s, expected one of %v", path, keysOf(want)) {
				continue
			}
			delete(want, path)
			c.Check(r.get, "route-method", fname(f), r.pos, "the route %s does not answer GET requests", path)
			key := kind + "|" + r.h.String()
			if seen[key] {
				continue
			}
			seen[key] = true
			n++
			c.gatewayHandler(p, f, kind, r.h, sch, pk)
		}
		c.Check(len(want) == 0, "routes", fname(f), p.Pos, "no route is installed at %v", keysOf(want))
	}
	c.Check(n >= 3, "routes", fname(f), "-", "only %d kinds of routes were found", n)
}

func keysOf(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// lastFailed: the path ends because a call failed.
func (c *Ctx) lastFailed(p *Path) bool {
	for i := len(p.Events) - 1; i >= 0; i-- {
		e := p.Events[i]
		if e.Kind == "call" && len(e.Res) > 0 && isErrType(e.Res[len(e.Res)-1].Typ) && e.failedIn(p.facts) {
			return true
		}
	}
	return false
}

// gatewayHandler checks one handler of the gateway.
func (c *Ctx) gatewayHandler(at *Path, in *ssa.Function, kind string, h, sch, pk *T) {
	h, args, ps := c.handlerOf(at, h)
	if !c.Check(h != nil && len(args) == 2, "handler", kind, "-", "the handler of the %s route is not a function of response and request", kind) {
		return
	}
	name := kind + " handler"
	w, req := args[0], args[1]
	from := at.st.seq
	answers := 0
	for _, p := range ps {
		if p.Outcome != "return" {
			bad := true
			for _, e := range p.calls(fnJSON) {
				if e.failedIn(p.facts) {
					bad = false
				}
			}
			c.Check(!bad, "handler-panic", name, p.Pos, "a request can make the handler panic")
			continue
		}
		ws := responses(p, w, from)
		// the answer with an object
		var ans *Event
		for _, x := range ws {
			if x.body == nil {
				continue
			}
			if e := p.eventOf(x.body); e != nil && e.Fn == fnJSON {
				c.Check(e.okIn(p.facts), "handler-answer", name, x.ev.Pos, "the answer is written although it could not be encoded")
				ans = e
			}
		}
		if ans == nil {
			ok := len(ws) > 0 && ws[0].code >= 400 && ws[0].code < 600
			c.Check(ok, "handler-error", name, p.Pos, "a request is answered neither with an object nor with an error status")
			for _, e := range p.calls("(*runtime/orm/schema.Schema).Indexer") {
				if e.failedIn(p.facts) {
					c.Check(!valuePart(e.Args[1]), "handler-error", name, p.Pos, "a request is refused because %v, which is not the field selected, is no index", e.Args[1])
				}
			}
			c.Check(reasonFor(p, from), "handler-error", name, p.Pos, "a request is refused although nothing failed")
			n := 0
			for _, x := range ws {
				if x.code != 0 {
					n++
				}
			}
			c.Check(n == 1, "handler-error", name, p.Pos, "an error is answered %d times", n)
			continue
		}
		answers++
		n := 0
		for _, x := range ws {
			if x.code >= 300 || x.code < 0 {
				c.Check(false, "handler-answer", name, x.ev.Pos, "an object is answered with status %d", x.code)
			}
			if x.body != nil {
				n++
			}
		}
		c.Check(n == 1, "handler-answer", name, p.Pos, "the answer is written %d times", n)
		switch kind {
		case "list":
			c.listAnswer(p, name, from, req, sch, ans)
		default:
			c.getAnswer(p, name, from, req, sch, pk, ans, kind == "singleton")
		}
	}
	c.Check(answers > 0, "handler-answer", name, "-", "no request is ever answered with an object")
}

func (c *Ctx) handlerOf(at *Path, h *T) (*T, []*T, []*Path) {
	f, args, ps := c.runFunc(at.st, h, httpCfg())
	if f == nil {
		return nil, nil, nil
	}
	return h, args, ps
}

// wantHeight: the height that the request asks for (nil: the latest).
func (c *Ctx) wantHeight(p *Path, name string, from int, req *T) (*T, bool) {
	for _, e := range p.calls(fnHdrGet) {
		if e.Seq < from || !contains(e.Args[0], deepStrip(req)) {
			continue
		}
		if s, ok := e.Args[1].strVal(); !ok || s != heightHeader {
			continue
		}
		h := deepStrip(e.Res[0])
		if lengthZero(p.facts, h) {
			return nil, true
		}
		perr := mk("call", "strconv.ParseUint#1", nil, h, mkInt(10), mkInt(64))
		ok, k := isNilIn(p.facts, perr)
		c.Check(k && ok, "height", name, e.Pos, "a request is answered although its height could not be parsed")
		return mk("call", "strconv.ParseUint#0", nil, h, mkInt(10), mkInt(64)), true
	}
	c.Check(false, "height", name, p.Pos, "a request is answered without looking at the height it asks for")
	return nil, false
}

func (c *Ctx) heightOpt(name, pos string, got, want *T) {
	if want == nil {
		n, ok := got.intVal()
		c.Check(ok && n == 0, "height", name, pos, "a request without a height is answered at height %v", got)
		return
	}
	c.Check(got != nil && same(got, want), "height", name, pos, "the object is read at height %v instead of the requested one", got)
}

func (c *Ctx) getAnswer(p *Path, name string, from int, req, sch, pk *T, ans *Event, single bool) {
	gets := p.calls(fnClientGet)
	if !c.Check(len(gets) == 1 && gets[0].okIn(p.facts), "handler-read", name, p.Pos, "an object is answered without a successful read") {
		return
	}
	g := gets[0]
	c.Check(g.Seq < ans.Seq, "handler-read", name, g.Pos, "the answer is encoded before the object is read")
	o := deepStrip(g.Args[1])
	e := p.eventOf(o)
	c.Check(e != nil && e.Seq >= from && e.Fn == fnSchNewObj && same(e.Args[0], sch), "handler-read", name, g.Pos, "the object read is not a new one of the route's type: %v", o)
	c.Check(deepStrip(ans.Args[0]) == o, "handler-answer", name, ans.Pos, "the answer is %v instead of the object that was read", ans.Args[0])
	id := unconv(deepStrip(g.Args[0]))
	if single {
		c.Check(c.isSingletonID(id), "handler-key", name, g.Pos, "the singleton is read by the key %v", id)
	} else {
		ok := false
		if e := p.eventOf(id); e != nil && e.Fn == fnEncPKStr && same(e.Args[0], sch) && e.okIn(p.facts) {
			v := deepStrip(e.Args[1])
			if v.Op == "maplookup" && same(v.A[1], pk) {
				if m := p.eventOf(v.A[0]); m != nil && m.Fn == "github.com/gorilla/mux.Vars" && same(m.Args[0], req) {
					ok = true
				}
			}
		}
		c.Check(ok, "handler-key", name, g.Pos, "the object is read by %v instead of the key in the request's path", id)
	}
	want, ok := c.wantHeight(p, name, from, req)
	if !ok {
		return
	}
	rec := c.P.named("runtime/client", "GetOptionsRaw")
	if rec == nil {
		c.Fail("anchor:GetOptionsRaw", "-", "the options of reads were not found")
		return
	}
	v, ok := c.optValue(p.st, g.Deep[2], rec)
	if c.Check(ok, "height", name, g.Pos, "the options of the read are not known: %v", g.Args[2]) {
		c.heightOpt(name, g.Pos, field(v, "Height"), want)
	}
}

func (c *Ctx) isSingletonID(id *T) bool {
	id = deepStrip(id)
	for id.Op == "conv" || id.Op == "load" {
		id = deepStrip(id.A[0])
	}
	if s, ok := id.strVal(); ok {
		return s == "unique"
	}
	return id.Op == "global" && strings.HasSuffix(id.S, "meta.SingletonID") || strings.HasSuffix(id.String(), "core/meta.SingletonID")
}

func (c *Ctx) listAnswer(p *Path, name string, from int, req, sch *T, ans *Event) {
	lists := p.calls(fnClientList)
	if !c.Check(len(lists) == 1 && lists[0].okIn(p.facts), "handler-read", name, p.Pos, "a list is answered without a successful listing") {
		return
	}
	l := lists[0]
	e := p.eventOf(l.Args[0])
	c.Check(e != nil && e.Fn == fnSchNewObj && same(e.Args[0], sch), "handler-read", name, l.Pos, "the listing is for %v instead of the route's type", l.Args[0])
	c.listOptions(p, name, from, req, l)
	it := deepStrip(l.Res[0])
	// the iteration
	isIt := func(e *Event) bool { return len(e.Args) > 0 && same(e.Args[0], it) }
	var cur *T       // object read at the current position
	pos := "unknown" // unknown, valid, end
	var appended int
	closed := 0
	var list *T
	lastAppend := 0
	for _, e := range p.Events {
		if e.Kind != "call" || e.Seq < l.Seq {
			continue
		}
		switch {
		case isIt(e) && strings.HasSuffix(e.Fn, ").Valid"):
			v, k := decideIn(p.facts, deepStrip(e.Res[0]))
			c.Check(k, "list-all", name, e.Pos, "the listing goes on without looking at whether the iterator is valid")
			if v {
				pos = "valid"
			} else {
				pos = "end"
			}
		case isIt(e) && strings.HasSuffix(e.Fn, ").Get"):
			c.Check(pos == "valid" && cur == nil && e.okIn(p.facts), "list-all", name, e.Pos, "an object of the list is not read exactly once")
			cur = deepStrip(e.Args[1])
			n := p.eventOf(cur)
			c.Check(n != nil && n.Seq > l.Seq && n.Fn == fnSchNewObj && same(n.Args[0], sch), "list-all", name, e.Pos, "an object of the list is read into %v instead of a new one", cur)
		case strings.HasSuffix(e.Fn, "protoreflect.List).Append"):
			ok := cur != nil && deepStrip(e.Args[0]) == deepStrip(protoValueOf(cur))
			c.Check(ok, "list-all", name, e.Pos, "the list is extended by %v instead of the object read", e.Args[0])
			if list == nil {
				list = deepStrip(e.Recv)
			}
			c.Check(deepStrip(e.Recv) == list, "list-all", name, e.Pos, "the objects are added to different lists")
			appended++
			lastAppend = e.Seq
		case isIt(e) && strings.HasSuffix(e.Fn, ").Next"):
			c.Check(cur != nil && appended == 1, "list-all", name, e.Pos, "the iterator is advanced after the object was added %d times", appended)
			cur, appended, pos = nil, 0, "unknown"
		case isIt(e) && strings.HasSuffix(e.Fn, ").Close"):
			closed++
		}
	}
	c.Check(pos == "end", "list-all", name, p.Pos, "a list is answered before the iterator is exhausted")
	c.Check(closed == 1, "list-close", name, p.Pos, "the iterator is closed %d times", closed)
	// the answer is the list message the objects were added to
	m := findTerm(deepStrip(ans.Args[0]), func(x *T) bool {
		e := p.eventOf(x)
		return e != nil && strings.HasSuffix(e.Fn, "MessageType).New")
	})
	ok := m != nil
	if ok {
		e := p.eventOf(m)
		c.Check(e.Seq >= from, "list-own", name, ans.Pos, "the answered list is shared between requests")
		le := p.eventOf(findRes(e.Recv))
		ok = le != nil && le.Fn == fnForgeList
		if ok {
			x := p.eventOf(le.Args[0])
			ok = x != nil && x.Fn == fnSchNewObj && same(x.Args[0], sch)
		}
	}
	c.Check(ok, "list-type", name, ans.Pos, "the answer is not the list type of the route's objects")
	if m == nil {
		return
	}
	filled := list == nil
	if list != nil && contains(list, m) && findTerm(list, func(x *T) bool { return x.Op == "call" && strings.HasSuffix(x.S, ".Mutable") }) != nil {
		filled = true
	}
	for _, e := range p.Events {
		if e.Kind != "call" || list == nil {
			continue
		}
		switch {
		case strings.HasSuffix(e.Fn, "protoreflect.Message).Set") && deepStrip(e.Recv) == m && e.Seq > lastAppend && e.Seq < ans.Seq && contains(e.Args[1], list):
			filled = true
		case strings.HasSuffix(e.Fn, "protoreflect.Message).Mutable") && deepStrip(e.Recv) == m && len(e.Res) > 0 && contains(list, deepStrip(e.Res[0])):
			filled = true
		case strings.HasSuffix(e.Fn, "protoreflect.Message).Clear") && deepStrip(e.Recv) == m && e.Seq > lastAppend:
			c.Check(false, "list-all", name, e.Pos, "the list is cleared before it is answered")
		}
	}
	c.Check(filled, "list-all", name, ans.Pos, "the objects are not part of the answered list")
}

// findRes is the first call result inside a term.
func findRes(t *T) *T {
	if t == nil {
		return nil
	}
	return findTerm(deepStrip(t), func(x *T) bool { return x.Op == "res" })
}

// protoValueOf is the reflection value of a message.
func protoValueOf(o *T) *T {
	return mk("call", "google.golang.org/protobuf/reflect/protoreflect.ValueOfMessage", nil, mk("call", "(google.golang.org/protobuf/reflect/protoreflect.ProtoMessage).ProtoReflect", nil, o))
}

// listOptions compares the options of the listing with the request.
func (c *Ctx) listOptions(p *Path, name string, from int, req *T, l *Event) {
	rec := c.P.named("runtime/client", "ListOptionsRaw")
	if rec == nil {
		c.Fail("anchor:ListOptionsRaw", "-", "the options of listings were not found")
		return
	}
	v, ok := c.optValue(p.st, l.Deep[1], rec)
	if !c.Check(ok, "list-options", name, l.Pos, "the options of the listing are not known: %v", l.Args[1]) {
		return
	}
	if want, ok := c.wantHeight(p, name, from, req); ok {
		c.heightOpt(name, l.Pos, field(v, "Height"), want)
	}
	// the range
	for _, r := range []struct {
		param, field string
		def          int64
	}{{"start", "Start", 0}, {"end", "End", 100}} {
		got := field(v, "ORMOptions", r.field)
		found := false
		for _, e := range p.calls(fnURLGet) {
			if s, ok := e.Args[1].strVal(); !ok || s != r.param || e.Seq < from {
				continue
			}
			found = true
			x := deepStrip(e.Res[0])
			if lengthZero(p.facts, x) {
				n, ok := got.intVal()
				c.Check(ok && n == r.def, "list-range", name, e.Pos, "a list without a given %s uses %v", r.param, got)
				continue
			}
			perr := mk("call", "strconv.ParseUint#1", nil, x, mkInt(10), mkInt(64))
			ok, k := isNilIn(p.facts, perr)
			c.Check(k && ok && same(got, mk("call", "strconv.ParseUint#0", nil, x, mkInt(10), mkInt(64))), "list-range", name, e.Pos, "the list's %s is %v instead of the requested one", r.param, got)
		}
		c.Check(found, "list-range", name, l.Pos, "the %s of the requested range is not looked at", r.param)
	}
	// the selections
	var sel *T
	for _, e := range p.Events {
		if e.Kind != "call" || e.Fn != "(*net/url.URL).Query" || e.Seq < from {
			continue
		}
		s := mk("maplookup", "", nil, deepStrip(e.Res[0]), mkStr("selectField"))
		if present, k := decideIn(p.facts, mk("mapok", "", nil, s.A[0], s.A[1])); k && !present {
			sel = mkNil(nil)
			continue
		}
		sel = s
	}
	items := flatList(field(v, "ORMOptions", "MatchFieldString"))
	var want [][2]*T
	if sel != nil && !sel.isNil() {
		idx, done := elems(p.facts, sel)
		c.Check(done, "list-selection", name, l.Pos, "a list is answered before every selection was looked at")
		for _, i := range idx {
			x := mkElem(sel, i, nil)
			sp := mk("call", "strings.SplitN", nil, x, mkStr("="), mkInt(2))
			if eq, k := decideIn(p.facts, mk("eq", "", nil, mk("len", "", nil, sp), mkInt(2))); k && eq {
				want = append(want, [2]*T{mkElem(sp, mkInt(0), nil), mkElem(sp, mkInt(1), nil)})
				continue
			}
			if f, k := decideIn(p.facts, mk("call", "strings.Cut#2", nil, x, mkStr("="))); k && f {
				want = append(want, [2]*T{mk("call", "strings.Cut#0", nil, x, mkStr("=")), mk("call", "strings.Cut#1", nil, x, mkStr("="))})
				continue
			}
			if pair, ok := cutAt(p.facts, x, after(items, len(want))); ok {
				want = append(want, pair)
				continue
			}
			c.Check(false, "list-selection", name, l.Pos, "the selection %v is not split at its first =", x)
			return
		}
	} else {
		c.Check(sel != nil, "list-selection", name, l.Pos, "the selections of the request are not looked at")
	}
	c.Check(len(items) == len(want), "list-selection", name, l.Pos, "%d selections of the request become %d filters", len(want), len(items))
	for i := range items {
		if i < len(want) {
			c.Check(same(field(items[i], "Field"), want[i][0]) && same(field(items[i], "Value"), want[i][1]), "list-selection", name, l.Pos, "a selection becomes the filter %v", items[i])
		}
	}
	mi := flatList(field(v, "ORMOptions", "MatchFieldInterface"))
	c.Check(len(mi) == 0, "list-selection", name, l.Pos, "the listing has filters that the request did not ask for: %v", mi)
}

// flatOver is flatList for slices which may have been filled by the index of
// the elements of col.
func flatOver(facts map[*T]bool, t, col *T) []*T {
	t = deepStrip(t)
	switch t.Op {
	case "append":
		return append(append([]*T{}, flatOver(facts, t.A[0], col)...), flatOver(facts, t.A[1], col)...)
	case "mslice":
		idx, _ := elems(facts, col)
		vals, ok := seqItems(facts, t, col)
		if !ok || len(vals) != len(idx) {
			return []*T{t}
		}
		var out []*T
		for _, i := range idx {
			if vals[deepStrip(i)] == nil {
				return []*T{t}
			}
			out = append(out, vals[deepStrip(i)])
		}
		return out
	}
	return flatList(t)
}

// flatList lists the elements of a slice built by literals and append.
func flatList(t *T) []*T {
	if t == nil {
		return nil
	}
	t = deepStrip(t)
	switch t.Op {
	case "nil":
		return nil
	case "slicelit":
		return t.A
	case "mslice":
		if n, ok := t.A[0].intVal(); ok && n == 0 && t.S == "" {
			return nil
		}
	case "slice":
		if (t.A[1].isNil() || t.A[1] == mkInt(0)) && (t.A[2].isNil() || lenEq(t.A[2], t.A[0])) {
			return flatList(t.A[0])
		}
	case "append":
		return append(append([]*T{}, flatList(t.A[0])...), flatList(t.A[1])...)
	}
	return []*T{t}
}

// gatewayModules: registering a module registers each of its objects, once.
func (c *Ctx) gatewayModules(create *ssa.Function) {
	f := c.P.method("core/apiserver/router", "Builder", "CreateModuleHandlers")
	if f == nil || f.Blocks == nil {
		return
	}
	cfg := Cfg{OpaqueFn: func(g *ssa.Function) bool { return g == create }, Opaque: httpCfg().Opaque}
	mod := mk("param", f.Params[1].Name(), nil)
	objs := mkField(mod, "StateObjects", nil)
	for _, p := range c.run(f, cfg) {
		facts, ok := p.success()
		if !ok {
			c.Check(p.Outcome == "return" && reasonFor(p, 0) || knownMapOK(p), "gateway-module", fname(f), p.Pos, "a module is refused although no step failed")
			continue
		}
		idx, done := elems(facts, objs)
		c.Check(done, "gateway-module", fname(f), p.Pos, "not every object of a module gets its routes")
		calls := p.calls(fname(create))
		c.Check(len(calls) == len(idx), "gateway-module", fname(f), p.Pos, "%d of a module's %d objects get routes", len(calls), len(idx))
		for _, i := range idx {
			o := mkElem(objs, i, nil)
			n := 0
			for _, e := range calls {
				if same(e.Args[1], mkField(o, "StateObject", nil)) && same(e.Args[2], mkField(o, "SchemaDefinition", nil)) && e.okIn(facts) {
					n++
				}
			}
			c.Check(n == 1, "gateway-module", fname(f), p.Pos, "the object %v of a module gets its routes %d times", o, n)
		}
	}
}

// knownMapOK: the path knows that some key is present in a map.
func knownMapOK(p *Path) bool {
	for _, f := range p.Facts {
		if f.Atom.Op == "mapok" && f.Val {
			return true
		}
	}
	return false
}

// gatewayService: the service registers every object of every module and
// serves the router that was built.
func (c *Ctx) gatewayService(create *ssa.Function) {
	n := 0
	seen := map[*ssa.Function]bool{}
	for _, s := range c.P.callSites(func(n string) bool { return n == fname(create) }) {
		f := s.In
		for f.Parent() != nil {
			f = f.Parent()
		}
		if seen[f] || f.Name() == "CreateModuleHandlers" {
			continue
		}
		// the service's Start is what reaches it
		starts := c.startsReaching(f)
		for _, st := range starts {
			if seen[st] {
				continue
			}
			seen[st] = true
			n++
			c.gatewayStart(st, create)
		}
		seen[f] = true
	}
	c.Check(n > 0, "gateway-service", "services", "-", "no service registers the state objects with the gateway")
}

// startsReaching lists the Start methods from which f is reached.
func (c *Ctx) startsReaching(f *ssa.Function) (out []*ssa.Function) {
	cm := c.P.callers()
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		if g.Name() == "Start" && g.Signature.Recv() != nil && g.Synthetic == "" {
			out = append(out, g)
			return
		}
		for h := range cm[g] {
			walk(h)
		}
	}
	walk(f)
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return
}

func (c *Ctx) gatewayStart(f, create *ssa.Function) {
	bld := "(*core/apiserver/router.Builder).Build"
	cfg := Cfg{Opaque: func(n string) bool {
		return n == fname(create) || n == bld || n == "core/apiserver/router.NewBuilder"
	}}
	ok := 0
	for _, p := range c.run(f, cfg) {
		if p.Outcome != "return" {
			c.Check(false, "gateway-service", fname(f), p.Pos, "starting the gateway can panic")
			continue
		}
		facts, good := p.success()
		if !good {
			c.Check(c.lastFailed(p), "gateway-service", fname(f), p.Pos, "the gateway does not start although nothing failed")
			continue
		}
		ok++
		// the descriptors
		var mods *T
		for _, e := range p.calls(fnClientGet) {
			if e.okIn(facts) && strings.HasSuffix(objType(e.Deep[1]), "ModuleDescriptors") && c.isSingletonID(unconv(deepStrip(e.Args[0]))) {
				if o := evOut(e, 1); o != nil {
					mods = mkField(o, "Modules", nil)
				}
			}
		}
		if !c.Check(mods != nil, "gateway-service", fname(f), p.Pos, "the gateway does not read the descriptions of the modules") {
			continue
		}
		mi, done := elems(facts, mods)
		c.Check(done, "gateway-service", fname(f), p.Pos, "the objects of some modules are not served")
		calls := p.calls(fname(create))
		for _, i := range mi {
			m := mkElem(mods, i, nil)
			objs := mkField(m, "StateObjects", nil)
			oi, done := elems(facts, objs)
			c.Check(done, "gateway-service", fname(f), p.Pos, "some objects of a module are not served")
			for _, j := range oi {
				o := mkElem(objs, j, nil)
				n := 0
				for _, e := range calls {
					x := deepStrip(e.Args[1])
					src := p.eventOf(findRes(x))
					if src != nil && strings.HasSuffix(src.Fn, ".FindMessageByName") && same(src.Args[1], mkField(o, "ProtobufFullname", nil)) && same(e.Args[2], mkField(o, "SchemaDefinition", nil)) && e.okIn(facts) && src.okIn(facts) {
						n++
					}
				}
				c.Check(n == 1, "gateway-service", fname(f), p.Pos, "the object %v is registered %d times with its definition", o, n)
			}
		}
		// what is served
		var mux *T
		last := 0
		for _, e := range calls {
			if e.Seq > last {
				last = e.Seq
			}
		}
		for _, e := range p.calls(bld) {
			if e.okIn(facts) {
				mux = deepStrip(e.Res[0])
				c.Check(e.Seq > last, "gateway-service", fname(f), e.Pos, "the router is built before every object is registered")
			}
			for _, x := range calls {
				c.Check(same(x.Args[0], e.Args[0]), "gateway-service", fname(f), x.Pos, "an object is registered with a router which is not served")
			}
		}
		served := false
		for _, e := range p.Events {
			if e.Kind == "store" && len(e.Deep) > 1 && objType(e.Deep[1]) != "" {
				if h := field(e.Deep[1], "Handler"); h != nil && mux != nil && contains(deepStrip(h), mux) {
					served = true
				}
			}
		}
		for k, v := range p.st.mem {
			if k.Op == "faddr" && k.S == "Handler" && mux != nil && contains(deepStrip(v), mux) {
				served = true
			}
		}
		c.Check(served, "gateway-service", fname(f), p.Pos, "the server does not use the router that was built")
	}
	c.Check(ok > 0, "gateway-service", fname(f), "-", "the gateway never starts")
}

// abciQuery checks what queries answer.
func (c *Ctx) abciQuery() {
	f := c.method("runtime", "Querier", "Handle")
	if f == nil {
		return
	}
	cfg := httpCfg()
	q := mk("param", f.Params[1].Name(), nil)
	path := mkField(q, "Path", nil)
	split := mk("call", "strings.Split", nil, path, mkStr("/"))
	verb := mkElem(split, mkInt(0), nil)
	objects, resources := 0, 0
	for _, p := range c.run(f, cfg) {
		if p.Outcome != "return" {
			// encoding or a group without kinds
			c.Check(c.lastFailed(p), "query", fname(f), p.Pos, "a query can panic although no step failed")
			continue
		}
		r := deepStrip(p.Ret[0])
		code, val := field(r, "Code"), field(r, "Value")
		n, isC := code.intVal()
		if !c.Check(isC, "query", fname(f), p.Pos, "the code of the answer is %v", code) {
			continue
		}
		is := func(s string) bool { return c.verbIs(p, verb, s) }
		if n != 0 {
			c.Check(val == nil || val.isNil(), "query", fname(f), p.Pos, "a failed query answers a value: %v", val)
			c.Check(c.lastFailed(p) || stepFailed(p, 0) || !is("get") && !is("api_resources") || shortPath(p), "query", fname(f), p.Pos, "a query fails although no step failed")
			continue
		}
		e := p.eventOf(val)
		if !c.Check(e != nil && e.Fn == fnJSON && e.okIn(p.facts), "query", fname(f), p.Pos, "a query succeeds with %v", val) {
			continue
		}
		gets := append(p.calls("(runtime/orm.Store).Get"), p.calls(fnClientGet)...)
		switch {
		case is("get"):
			objects++
			if !c.Check(len(gets) == 1 && gets[0].okIn(p.facts), "query-get", fname(f), p.Pos, "a get query succeeds without a successful read") {
				continue
			}
			g := gets[0]
			o := deepStrip(g.Args[2])
			c.Check(deepStrip(e.Args[0]) == o, "query-get", fname(f), e.Pos, "the answer is %v instead of the object read", e.Args[0])
			// the type
			ok := false
			var sch *T
			if n := p.eventOf(o); n != nil && n.Fn == fnSchNewObj {
				sch = deepStrip(n.Args[0])
				if l := p.eventOf(sch); l != nil && strings.HasSuffix(l.Fn, "schema.Registry).GetByAPIDefinition") && l.okIn(p.facts) {
					d := deepStrip(l.Deep[1])
					ok = c.pathElem(field(d, "Group"), path, 1) && c.pathElem(field(d, "Kind"), path, 2)
				}
			}
			c.Check(ok, "query-get", fname(f), g.Pos, "the object read is not of the group and kind in the path")
			// the key
			id := unconv(deepStrip(g.Args[1]))
			for id.Op == "conv" {
				id = deepStrip(id.A[0])
			}
			ok = c.pathElem(id, path, 3)
			if x := p.eventOf(id); !ok && x != nil && x.Fn == fnEncPKStr && sch != nil {
				ok = same(x.Args[0], sch) && x.okIn(p.facts) && c.pathElem(x.Args[1], path, 3)
			}
			c.Check(ok, "query-get", fname(f), g.Pos, "the object is read by %v instead of the key in the path", id)
		case is("api_resources"):
			resources++
			c.Check(len(gets) == 0, "query-resources", fname(f), p.Pos, "a resource query reads objects")
			c.apiResources(p, fname(f), deepStrip(e.Deep[0]))
		default:
			c.Check(false, "query", fname(f), p.Pos, "an unknown query succeeds")
		}
	}
	c.Check(objects > 0 && resources > 0, "query", fname(f), "-", "no query for objects or resources ever succeeds")
	// queries reach the handler
	for _, app := range c.abciApps() {
		m := c.methodFor(app, "Query")
		if m == nil || m.Blocks == nil {
			continue
		}
		for _, p := range c.run(m, Cfg{OpaqueFn: func(g *ssa.Function) bool { return g == f }}) {
			es := p.calls(fname(f))
			ok := p.Outcome == "return" && len(es) == 1 && same(es[0].Args[1], mk("param", m.Params[len(m.Params)-1].Name(), nil)) && same(p.Ret[0], es[0].Res[0])
			c.Check(ok, "query-app", fname(m), p.Pos, "a query is not answered by the query handler")
		}
	}
}

// shortPath: the path of the query is known to have too few parts.
func shortPath(p *Path) bool {
	for _, f := range p.Facts {
		if findTerm(f.Atom, func(x *T) bool {
			return x.Op == "call" && (strings.HasPrefix(x.S, "strings.Cut#") || strings.HasPrefix(x.S, "strings.Index") || x.S == "strings.Contains" || x.S == "strings.Count")
		}) != nil {
			return true
		}
		l := findTerm(f.Atom, func(x *T) bool {
			return x.Op == "len" && x.A[0].Op == "call" && strings.HasPrefix(x.A[0].S, "strings.Split")
		})
		if l == nil {
			continue
		}
		// a limited split yields at most so many parts, and all of them when
		// there are enough
		full := []int64{4, 5, 6}
		if n, ok := l.A[0].A[len(l.A[0].A)-1].intVal(); ok {
			full = []int64{n}
		}
		short := true
		for _, n := range full {
			if mayBe(f.Atom, f.Val, l, n) {
				short = false
			}
		}
		if short {
			return true
		}
	}
	return false
}

// mayBe: the comparison of a length with a constant allows the length n.
func mayBe(a *T, v bool, l *T, n int64) bool {
	if len(a.A) != 2 || a.A[0] != l && a.A[1] != l {
		return true
	}
	k, ok := a.A[0].intVal()
	if a.A[0] == l {
		k, ok = a.A[1].intVal()
	}
	if !ok {
		return true
	}
	switch {
	case a.Op == "eq":
		return (n == k) == v
	case a.Op == "lt" && a.A[0] == l:
		return (n < k) == v
	case a.Op == "lt":
		return (k < n) == v
	}
	return true
}

func (c *Ctx) verbIs(p *Path, verb *T, s string) bool {
	path := verb.A[0].A[0]
	for _, f := range p.Facts {
		a := f.Atom
		if a.Op == "call" && a.S == "strings.HasPrefix" && f.Val && same(a.A[len(a.A)-2], path) {
			if x, ok := a.A[len(a.A)-1].strVal(); ok && x == s+"/" {
				return true
			}
		}
		if a.Op != "eq" || !f.Val {
			continue
		}
		for k := 0; k < 2; k++ {
			if x, ok := a.A[k].strVal(); ok && x == s && (c.pathElem(a.A[1-k], path, 0) || beforeSlash(p, a.A[1-k], path)) {
				return true
			}
		}
	}
	return false
}

// beforeSlash: t is the path up to its first slash, or all of it without one.
func beforeSlash(p *Path, t, path *T) bool {
	slash := func(x *T) bool {
		if x == nil || x.Op != "call" || len(x.A) < 2 || !same(x.A[len(x.A)-2], path) {
			return false
		}
		s, _ := x.A[len(x.A)-1].strVal()
		n, _ := x.A[len(x.A)-1].intVal()
		return (x.S == "strings.IndexByte" || x.S == "strings.IndexRune") && n == '/' || x.S == "strings.Index" && s == "/" || strings.HasPrefix(x.S, "strings.Cut#") && s == "/"
	}
	t = deepStrip(t)
	switch {
	case t.Op == "call" && t.S == "strings.Cut#0":
		return slash(t)
	case t.Op == "slice" && same(t.A[0], path):
		return (t.A[1].isNil() || t.A[1] == mkInt(0)) && slash(t.A[2])
	case same(t, path):
		for _, f := range p.Facts {
			if a := f.Atom; a.Op == "lt" && f.Val && slash(a.A[0]) && a.A[1] == mkInt(0) || a.Op == "eq" && f.Val && (slash(a.A[0]) && a.A[1] == mkInt(-1) || slash(a.A[1]) && a.A[0] == mkInt(-1)) ||
				a.Op == "call" && a.S == "strings.Contains" && !f.Val && same(a.A[len(a.A)-2], path) {
				return true
			}
		}
	}
	return false
}

// pathElem: t is the n-th part of the path split at slashes; the last part of
// a path cut into four may contain slashes.
func (c *Ctx) pathElem(t, path *T, n int64) bool {
	if t == nil {
		return false
	}
	t = deepStrip(t)
	for t.Op == "conv" {
		t = deepStrip(t.A[0])
	}
	if t.Op != "elem" || t.A[0].Op != "call" || !same(t.A[0].A[0], path) {
		return false
	}
	i, ok := t.A[1].intVal()
	if !ok || i != n {
		return false
	}
	sep, ok := t.A[0].A[1].strVal()
	if !ok || sep != "/" {
		return false
	}
	switch t.A[0].S {
	case "strings.Split":
		return n != 3
	case "strings.SplitN":
		k, ok := t.A[0].A[2].intVal()
		return ok && (k == 4 || n < 3 && (k < 0 || k > n+1))
	}
	return false
}

// apiResources: every group is answered with exactly its kinds.
func (c *Ctx) apiResources(p *Path, name string, m *T) {
	var groups *T
	for _, e := range p.Events {
		if e.Kind == "call" && strings.HasSuffix(e.Fn, "schema.Registry).ListAPIGroups") {
			groups = deepStrip(e.Res[0])
		}
	}
	if !c.Check(groups != nil, "query-resources", name, p.Pos, "the groups are not listed") {
		return
	}
	idx, done := elems(p.facts, groups)
	c.Check(done, "query-resources", name, p.Pos, "not every group is answered")
	for _, i := range idx {
		g := mkElem(groups, i, nil)
		n := 0
		for _, e := range p.Events {
			if e.Kind == "call" && strings.HasSuffix(e.Fn, "schema.Registry).ListKindsInGroup") && same(e.Args[1], g) {
				n++
				c.Check(e.okIn(p.facts), "query-resources", name, e.Pos, "the kinds of a group are answered although they could not be listed")
			}
		}
		c.Check(n == 1, "query-resources", name, p.Pos, "the kinds of a group are listed %d times", n)
	}
	items, ok := seqItems(p.facts, field(m, "ApiGroupResources"), groups)
	c.Check(ok && len(items) == len(idx), "query-resources", name, p.Pos, "the answer does not hold one entry for every group: %v", field(m, "ApiGroupResources"))
	for _, i := range idx {
		g := mkElem(groups, i, nil)
		it := items[deepStrip(i)]
		if !c.Check(it != nil && same(field(it, "ApiGroup"), g), "query-resources", name, p.Pos, "the entry of the group %v is %v", g, it) {
			continue
		}
		var kinds *T
		for _, e := range p.Events {
			if e.Kind == "call" && strings.HasSuffix(e.Fn, "schema.Registry).ListKindsInGroup") && same(e.Args[1], g) {
				kinds = deepStrip(e.Res[0])
			}
		}
		if kinds == nil {
			continue
		}
		got := field(it, "StateObjects")
		if got != nil && strings.HasPrefix(got.Op, "mslice") && len(got.A) == 2 && lenEq(got.A[0], kinds) && got.A[1].Op == "fill" && lenEq(got.A[1].A[0].A[0], kinds) && len(got.A[1].A) == 3 && got.A[1].A[1] == mkInt(0) && same(got.A[1].A[2], kinds) {
			continue
		}
		if got != nil && same(got, kinds) || got != nil && got.Op == "append" && (got.A[0].isNil() || lengthZero(p.facts, got.A[0])) && same(got.A[1], kinds) {
			continue
		}
		ki, kdone := elems(p.facts, kinds)
		vals, ok := seqItems(p.facts, got, kinds)
		c.Check(ok && kdone && len(vals) == len(ki), "query-resources", name, p.Pos, "the kinds answered for a group are %v", got)
		for _, k := range ki {
			c.Check(same(vals[deepStrip(k)], mkElem(kinds, k, nil)), "query-resources", name, p.Pos, "the kinds answered for a group are %v", got)
		}
	}
}

// groupList: the list of API groups holds every group, once.
func (c *Ctx) groupList() {
	f := c.method("runtime/orm/schema", "Registry", "ListAPIGroups")
	g := c.method("runtime/orm/schema", "Registry", "ListKindsInGroup")
	if f == nil || g == nil {
		return
	}
	tables := map[string]bool{}
	for _, p := range c.run(g, Cfg{}) {
		if _, ok := p.success(); ok {
			if r := deepStrip(p.Ret[0]); r.Op == "maplookup" && r.A[0].Op == "field" {
				tables[r.A[0].S] = true
			}
		}
	}
	for _, p := range c.run(f, Cfg{}) {
		if !c.Check(p.Outcome == "return", "groups", fname(f), p.Pos, "listing the groups panics") {
			continue
		}
		seen := map[*T]bool{}
		for _, x := range nameLeaves(p.RetDeep[0]) {
			x = deepStrip(x)
			if x.Op == "mslice" || x.isNil() {
				continue
			}
			ok := x.Op == "rkey" && x.A[0].Op == "field" && tables[x.A[0].S] && !seen[x]
			c.Check(ok, "groups", fname(f), p.Pos, "the list of groups holds %v", x)
			if ok {
				seen[x] = true
			}
		}
		n := 0
		done := false
		for fa, v := range p.facts {
			isTable := func(x *T) bool { return x.Op == "len" && x.A[0].Op == "field" && tables[x.A[0].S] }
			done = done || fa.Op == "lt" && !v && isTable(fa.A[1]) || fa.Op == "eq" && v && (isTable(fa.A[0]) || isTable(fa.A[1]))
			if fa.Op == "lt" && v && fa.A[1].Op == "len" && fa.A[1].A[0].Op == "field" && tables[fa.A[1].A[0].S] {
				n++
			}
			if fa.Op == "eq" && !v && fa.A[0].Op == "len" && fa.A[0].A[0].Op == "field" && tables[fa.A[0].A[0].S] {
				n++
			}
		}
		c.Check(n == len(seen), "groups", fname(f), p.Pos, "the list of groups holds %d of %d groups", len(seen), n)
		c.Check(done, "groups", fname(f), p.Pos, "the list of groups ends before every group was visited")
	}
}

// rpcClient: the remote client asks for exactly what it is asked and returns
// only successful answers.
func (c *Ctx) rpcClient() {
	it := c.P.named("pkg/client", "Client")
	if it == nil {
		return
	}
	total := map[string]int{}
	for _, t := range c.P.implementers(it) {
		for _, n := range []string{"Get", "Resources"} {
			m := c.methodFor(t, n)
			if m == nil || m.Blocks == nil {
				continue
			}
			ok := 0
			for _, p := range c.run(m, Cfg{}) {
				facts, good := p.success()
				qs := p.callsLike(func(n string) bool { return strings.HasSuffix(n, ".ABCIQuery") })
				if !good || len(qs) == 0 && p.Ret[0].isNil() && !p.errRet().isNil() {
					// a client which only reports an error
					continue
				}
				ok++
				if !c.Check(len(qs) == 1 && qs[0].okIn(facts), "rpc", fname(m), p.Pos, "an answer is returned without a successful query") {
					continue
				}
				q := qs[0]
				resp := mkField(mkField(deepStrip(q.Res[0]), "Response", nil), "Code", nil)
				v, k := decideIn(facts, mk("eq", "", nil, resp, mkInt(0)))
				if !k {
					for _, e := range p.Events {
						if len(e.Args) == 0 || len(e.Res) != 1 || !same(e.Args[0], mkField(deepStrip(q.Res[0]), "Response", nil)) {
							continue
						}
						val, known := decideIn(facts, deepStrip(e.Res[0]))
						switch {
						case strings.HasSuffix(e.Fn, "ResponseQuery).IsErr"):
							k, v = known, !val
						case strings.HasSuffix(e.Fn, "ResponseQuery).IsOK"):
							k, v = known, val
						}
					}
				}
				c.Check(k && v, "rpc", fname(m), q.Pos, "a failed query's answer is returned")
				parts := strParts(q.Args[2])
				if q.Recv != nil {
					parts = strParts(q.Args[1])
				}
				want := "api_resources"
				val := mkField(mkField(deepStrip(q.Res[0]), "Response", nil), "Value", nil)
				if n == "Get" {
					pr := func(i int) *T { return mk("param", m.Params[i].Name(), nil) }
					want = showParts([]strPart{{lit: "get/"}, {t: pr(2)}, {lit: "/"}, {t: pr(3)}, {lit: "/"}, {t: pr(4)}})
					c.Check(same(p.Ret[0], val), "rpc", fname(m), p.Pos, "the answer returned is %v", p.Ret[0])
				} else {
					un := p.callsLike(func(n string) bool { return strings.HasSuffix(n, "protojson.Unmarshal") })
					c.Check(len(un) == 1 && un[0].okIn(facts) && same(un[0].Args[0], val), "rpc", fname(m), p.Pos, "the answer is not decoded")
				}
				c.Check(showParts(parts) == want, "rpc", fname(m), q.Pos, "the query asks for %s instead of %s", showParts(parts), want)
			}
			total[n] += ok
		}
	}
	c.Check(total["Get"] > 0 && total["Resources"] > 0, "rpc", "clients", "-", "no query of a client ever succeeds")
}

func lenEq(t, col *T) bool {
	return t != nil && t.Op == "len" && same(t.A[0], col)
}

// cutAt: the filter made of the pieces of x before and after its first =.
func cutAt(facts map[*T]bool, x *T, items []*T) ([2]*T, bool) {
	if len(items) == 0 {
		return [2]*T{}, false
	}
	for fa, neg := range facts {
		if fa.Op != "lt" || neg || fa.A[1] != mkInt(0) || fa.A[0].Op != "call" || len(fa.A[0].A) != 2 || !same(fa.A[0].A[0], x) {
			continue
		}
		at := fa.A[0]
		n, isByte := at.A[1].intVal()
		sep, isStr := at.A[1].strVal()
		if !(at.S == "strings.IndexByte" || at.S == "strings.IndexRune") || !isByte || n != '=' {
			if at.S != "strings.Index" || !isStr || sep != "=" {
				continue
			}
		}
		l, r := field(items[0], "Field"), field(items[0], "Value")
		ok := l != nil && r != nil && l.Op == "slice" && r.Op == "slice" && same(l.A[0], x) && same(r.A[0], x) &&
			(l.A[1].isNil() || l.A[1] == mkInt(0)) && l.A[2] == at &&
			r.A[1] == addInt(at, 1) && (r.A[2].isNil() || lenEq(r.A[2], x))
		if ok {
			return [2]*T{l, r}, true
		}
	}
	return [2]*T{}, false
}

func after(items []*T, n int) []*T {
	if n > len(items) {
		return nil
	}
	return items[n:]
}
