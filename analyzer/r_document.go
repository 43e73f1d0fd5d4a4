package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", "The gateway's builder is followed, down to the generator's list of operations, for singletons and other objects: the operations left in that list must be the routes installed on the same path, one for one, with the message that the route's handler answers and the parameters it reads, and each of these messages must have been required. The function that requires a message is analysed inductively: it marks the message before it looks at others, requires the message of every field that has one, and lists the message once. The document must take over every operation, and every file's messages.", c36)
}

const docPkg = "pkg/protoutils/oas3schema"

func c36(c *Ctx) {
	req := c.method(docPkg, "OpenAPIv3Generator", "AddRequiredMessage")
	f := c.method("core/apiserver/router", "Builder", "CreateStateObjectHandler")
	if f == nil || req == nil {
		return
	}
	c.documentedRoutes(f, req)
	c.requiredMessages(req)
	c.documentPaths()
	c.documentSchemas()
	c.documentServed()
}

// msgOf is the message type a descriptor or message term stands for: an
// object's own, or the list type forged for it.
func msgOf(p *Path, t *T) (obj *T, list *Event) {
	t = deepStrip(t)
	for i := 0; i < 8; i++ {
		switch {
		case t.Op == "call" && len(t.A) > 0 && (strings.HasSuffix(t.S, "dynamicpb.NewMessage") || strings.HasSuffix(t.S, ").Descriptor") || strings.HasSuffix(t.S, ").ProtoReflect") || strings.HasSuffix(t.S, ").Interface") || strings.HasSuffix(t.S, ").New")):
			t = deepStrip(t.A[0])
			continue
		}
		break
	}
	if e := p.eventOf(t); e != nil {
		if e.Fn == fnForgeList {
			return nil, e
		}
		switch {
		case len(e.Args) > 0 && strings.HasSuffix(e.Fn, "dynamicpb.NewMessage"):
			return msgOf(p, e.Args[0])
		case e.Recv != nil && (strings.HasSuffix(e.Fn, ").Interface") || strings.HasSuffix(e.Fn, ").New")):
			return msgOf(p, e.Recv)
		}
	}
	return t, nil
}

// paramNames are the query parameters a handler reads.
func (c *Ctx) paramNames(at *Path, h *T) map[string]bool {
	out := map[string]bool{}
	_, _, ps := c.handlerOf(at, h)
	query := func(t *T) bool {
		return findTerm(deepStrip(t), func(x *T) bool {
			return (x.Op == "call" || x.Op == "res") && strings.Contains(x.S, "Query")
		}) != nil
	}
	for _, p := range ps {
		for _, e := range p.Events {
			if e.Fn == fnURLGet || strings.HasPrefix(e.Fn, "(net/url.Values).") {
				for _, a := range e.Args {
					if s, ok := deepStrip(a).strVal(); ok {
						out[s] = true
					}
				}
			}
		}
		for a := range p.facts {
			for _, x := range subterms(a) {
				if x.Op == "mapok" || x.Op == "maplookup" {
					if s, ok := deepStrip(x.A[1]).strVal(); ok && query(x.A[0]) {
						out[s] = true
					}
				}
				if x.Op == "call" && x.S == fnURLGet {
					if s, ok := deepStrip(x.A[1]).strVal(); ok {
						out[s] = true
					}
				}
			}
		}
	}
	return out
}

func subterms(t *T) []*T {
	var l []*T
	seen := map[*T]bool{}
	var walk func(x *T)
	walk = func(x *T) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		l = append(l, x)
		for _, a := range x.A {
			walk(a)
		}
	}
	walk(t)
	return l
}

// operations lists what a path appended to the generator's operations.
func operations(p *Path) (ops []*T, pos string, ok bool) {
	ok = true
	for _, e := range p.Events {
		if e.Kind != "store" || e.Fn == "mapupdate" || len(e.Args) != 2 {
			continue
		}
		to := strip(e.Args[0])
		if to.Op != "faddr" || to.S != "rawOperations" {
			continue
		}
		pos = e.Pos
		ops = nil
		t := deepStrip(e.Deep[1])
		for t.Op == "append" {
			x := deepStrip(t.A[1])
			if x.Op != "slicelit" {
				return nil, pos, false
			}
			ops = append(append([]*T{}, x.A...), ops...)
			t = deepStrip(t.A[0])
		}
		ok = ok && t.Op == "field" && t.S == to.S
	}
	return
}

func (c *Ctx) documentedRoutes(f, req *ssa.Function) {
	obj := mk("param", f.Params[1].Name(), nil)
	def := mk("param", f.Params[2].Name(), nil)
	single := mk("field", "Singleton", nil, def)
	reqName := fname(req)
	base := httpCfg()
	cfg := base
	cfg.Opaque = func(n string) bool {
		if strings.Contains(n, "core/apiserver/router.openAPI)") {
			return false
		}
		return n == reqName || base.Opaque(n)
	}
	params := map[string]map[string]bool{}
	n := 0
	for _, p := range c.run(f, cfg) {
		facts, ok := p.success()
		if p.Outcome != "return" || !ok {
			continue
		}
		for _, e := range p.Events {
			if e.Kind == "call" && len(e.Res) > 0 && isErrType(e.Res[len(e.Res)-1].Typ) {
				c.Check(e.okIn(facts), "document-errors", fname(f), e.Pos, "an object is registered although %s may have failed", e.Fn)
			}
		}
		isSingle, _ := decideIn(facts, single)
		ops, pos, good := operations(p)
		if !c.Check(good, "documented", fname(f), pos, "the operations documented are replaced") {
			continue
		}
		byPath := map[string]*T{}
		for _, op := range ops {
			path := showParts(strParts(field(op, "path")))
			c.Check(byPath[path] == nil, "documented", fname(f), pos, "%s is documented twice", path)
			byPath[path] = op
			n++
		}
		routes := gwRoutes(p)
		for _, r := range routes {
			path := showParts(r.parts)
			op := byPath[path]
			if !c.Check(op != nil, "documented", fname(f), r.pos, "the route %s is not documented", path) {
				continue
			}
			delete(byPath, path)
			m, _ := deepStrip(field(op, "method")).strVal()
			c.Check(m == "GET", "documented-method", fname(f), pos, "%s is documented with method %v", path, field(op, "method"))
			list := !isSingle && !strings.Contains(path, "{")
			resp := field(op, "responseMessage")
			if !c.Check(resp != nil, "documented-answer", fname(f), pos, "%s is documented without an answer", path) {
				continue
			}
			ro, rl := msgOf(p, resp)
			isList := func(e *Event) bool { return e != nil && e.okIn(facts) && same(e.Args[0], obj) }
			if list {
				c.Check(isList(rl), "documented-answer", fname(f), pos, "%s is documented to answer %v, which is not the list of the object", path, resp)
			} else {
				c.Check(rl == nil && same(ro, obj), "documented-answer", fname(f), pos, "%s is documented to answer %v, which is not the object", path, resp)
			}
			required := false
			for _, e := range p.calls(reqName) {
				eo, el := msgOf(p, e.Args[len(e.Args)-1])
				required = required || e.okIn(facts) && (list && isList(el) || !list && el == nil && same(eo, obj))
			}
			c.Check(required, "answer-required", fname(f), pos, "the message that %s answers is not part of the document", path)
			key := r.h.String()
			if params[key] == nil {
				params[key] = c.paramNames(p, r.h)
			}
			got := map[string]bool{}
			ps := deepStrip(field(op, "params"))
			known := ps == nil || ps.isNil() || ps.Op == "slicelit"
			if known && ps != nil {
				for _, x := range ps.A {
					s, k := deepStrip(field(x, "Name")).strVal()
					in, k2 := deepStrip(field(x, "In")).strVal()
					known = known && k && k2 && !got[s]
					if in == "query" {
						got[s] = true
					}
				}
			}
			c.Check(known, "documented-parameters", fname(f), pos, "the parameters of %s are documented as %v", path, ps)
			for s := range params[key] {
				c.Check(got[s], "documented-parameters", fname(f), pos, "the parameter %s that %s reads is not documented", s, path)
			}
			for s := range got {
				c.Check(params[key][s], "documented-parameters", fname(f), pos, "%s is documented to have a parameter %s that it does not read", path, s)
			}
		}
		for path := range byPath {
			c.Check(false, "documented", fname(f), pos, "%s is documented but not served", path)
		}
	}
	c.Check(n >= 3, "documented", fname(f), c.P.pos(f.Pos()), "only %d operations are documented", n)
	k := 0
	for _, m := range params {
		if len(m) >= 3 {
			k++
		}
	}
	c.Check(k > 0, "documented-parameters", fname(f), c.P.pos(f.Pos()), "no handler reads query parameters")
}

// requiredMessages: requiring a message requires all it contains.
func (c *Ctx) requiredMessages(f *ssa.Function) {
	name := fname(f)
	r := selfCall(f)
	if !c.Check(r != nil, "nested-messages", name, c.P.pos(f.Pos()), "the messages that a message contains are not required") {
		return
	}
	if r != f {
		c.Fail("undecided:"+name, c.P.pos(f.Pos()), "the function that requires messages is not recursive itself")
		return
	}
	ps := c.params(f)
	recv, md := deepStrip(ps[0]), deepStrip(ps[len(ps)-1])
	const (
		fnMsgFields = "(" + fdPkg + ".MessageDescriptor).Fields"
		fnFieldsLen = "(" + fdPkg + ".FieldDescriptors).Len"
		fnFieldsGet = "(" + fdPkg + ".FieldDescriptors).Get"
		fnKind      = "(" + fdPkg + ".FieldDescriptor).Kind"
		fnFieldMsg  = "(" + fdPkg + ".FieldDescriptor).Message"
		fnFullName  = "(" + fdPkg + ".Descriptor).FullName"
	)
	fields := mk("call", fnMsgFields, nil, md)
	n := mk("call", fnFieldsLen, nil, fields)
	nameOf := func(t *T) *T {
		t = deepStrip(t)
		for t.Op == "conv" {
			t = deepStrip(t.A[0])
		}
		if t.Op == "call" && strings.HasSuffix(t.S, ").FullName") {
			return deepStrip(t.A[0])
		}
		return nil
	}
	set := deepStrip(mkField(recv, "requiredObjectsSet", nil))
	okAny, nested := false, false
	for _, p := range c.run(f, Cfg{Opaque: func(s string) bool { return s == name }}) {
		if !c.Check(p.Outcome == "return", "required", name, p.Pos, "requiring a message panics") {
			continue
		}
		exists, asked := false, false
		for a, v := range p.facts {
			if (a.Op == "mapok" || a.Op == "maplookup") && deepStrip(a.A[0]) == set && nameOf(a.A[1]) == md {
				exists, asked = v, true
			}
		}
		var marks, lists, schemas []*Event
		for _, e := range p.Events {
			if e.Kind != "store" {
				continue
			}
			if e.Fn == "mapupdate" && deepStrip(e.Args[0]) == set {
				if c.Check(nameOf(e.Args[1]) == md, "required-once", name, e.Pos, "%v is marked instead of the message", e.Args[1]) {
					marks = append(marks, e)
				}
				continue
			}
			to := strip(e.Args[0])
			if to.Op != "faddr" {
				continue
			}
			v := deepStrip(e.Args[1])
			switch to.S {
			case "requiredObjects", "requiredSchemas":
				x := v
				good := v.Op == "append" && deepStrip(v.A[0]) == deepStrip(mkField(recv, to.S, nil))
				if good {
					x = deepStrip(v.A[1])
					good = x.Op == "slicelit" && len(x.A) == 1
				}
				if to.S == "requiredObjects" {
					lists = append(lists, e)
					good = good && deepStrip(x.A[0]) == md
				} else {
					schemas = append(schemas, e)
					good = good && contains(deepStrip(x.A[0]), md)
				}
				c.Check(good, "required", name, e.Pos, "the messages required become %v", v)
			}
		}
		if !c.Check(asked, "required-once", name, p.Pos, "a message is required without asking whether it already was") {
			continue
		}
		recs := p.calls(name)
		facts, ok := p.success()
		if exists {
			c.Check(ok && len(lists)+len(schemas)+len(recs) == 0, "required-once", name, p.Pos, "a message that was required already is required again")
			continue
		}
		for _, e := range recs {
			c.Check(len(marks) > 0 && marks[0].Seq < e.Seq, "recursive-types", name, e.Pos, "the messages of fields are required before the message itself is marked: a type that contains itself is never finished")
			nested = true
		}
		if !ok {
			bad := false
			for _, e := range recs {
				bad = bad || e.failedIn(p.facts)
			}
			c.Check(bad, "required", name, p.Pos, "a message is refused although no step failed")
			continue
		}
		okAny = true
		for _, e := range recs {
			c.Check(e.okIn(facts), "required", name, e.Pos, "a message is required although one it contains may not be")
		}
		c.Check(len(lists) == 1 && len(schemas) == 1 && len(marks) > 0, "required", name, p.Pos, "the message is listed %d times, its schema %d times", len(lists), len(schemas))
		// every field
		var idx []*T
		done := false
		for a, v := range p.facts {
			if a.Op == "lt" && a.A[1] == n {
				if v {
					idx = append(idx, a.A[0])
				} else {
					done = true
				}
			}
		}
		c.Check(done, "nested-messages", name, p.Pos, "not every field is looked at")
		first := len(idx) == 0
		for _, i := range idx {
			first = first || intEq(i, 0)
		}
		c.Check(first, "nested-messages", name, p.Pos, "the first field is not looked at")
		for _, i := range idx {
			fd := mk("call", fnFieldsGet, nil, fields, i)
			plain := c.noMessage(p, fd)
			visited := false
			msg := mk("call", fnFieldMsg, nil, fd)
			for _, e := range recs {
				visited = visited || deepStrip(e.Args[len(e.Args)-1]) == msg
			}
			// another field of the same type stands for it
			for _, e := range p.Facts {
				if e.Val && (e.Atom.Op == "mapok" || e.Atom.Op == "maplookup") && nameOf(e.Atom.A[1]) == msg {
					visited = true
				}
				if e.Val && e.Atom.Op == "eq" && len(e.Atom.A) == 2 && (nameOf(e.Atom.A[0]) == msg || nameOf(e.Atom.A[1]) == msg) {
					visited = true
				}
			}
			// messages collected first must be kept apart
			for ent, v := range p.st.mem {
				if ent.Op != "mapent" || deepStrip(v) != msg {
					continue
				}
				k := deepStrip(ent.A[1])
				apart := nameOf(k) == msg || k == msg || k == deepStrip(i) || k == fd
				for _, u := range []string{"Number", "FullName", "Name", "JSONName", "TextName", "Index"} {
					apart = apart || k.Op == "call" && strings.HasSuffix(k.S, ")."+u) && len(k.A) > 0 && k.A[0] == fd
				}
				c.Check(apart, "nested-messages", name, p.Pos, "the message of a field is collected under %v, which another message may have", k)
			}
			c.Check(plain || visited, "nested-messages", name, p.Pos, "the message of a field is not required")
		}
		for _, e := range recs {
			a := deepStrip(e.Args[len(e.Args)-1])
			good := false
			for _, i := range idx {
				good = good || a == mk("call", fnFieldMsg, nil, mk("call", fnFieldsGet, nil, fields, i))
			}
			c.Check(good, "nested-messages", name, e.Pos, "%v is required, which is not the message of a field", a)
		}
	}
	c.Check(okAny, "required", name, c.P.pos(f.Pos()), "no message can be required")
	c.Check(nested, "nested-messages", name, c.P.pos(f.Pos()), "no message of a field is required")
}

// noMessage: on the path the field is known to have no message type.
func (c *Ctx) noMessage(p *Path, fd *T) bool {
	kind := mk("call", "("+fdPkg+".FieldDescriptor).Kind", nil, fd)
	msg := mk("call", "("+fdPkg+".FieldDescriptor).Message", nil, fd)
	not := map[int64]bool{}
	for a, v := range p.facts {
		if a.Op != "eq" {
			continue
		}
		x, y := deepStrip(a.A[0]), deepStrip(a.A[1])
		if y == kind || y == msg {
			x, y = y, x
		}
		if x == msg && y.isNil() && v {
			return true
		}
		if k, ok := y.intVal(); ok && x == kind {
			if v && k != 10 && k != 11 {
				return true
			}
			if !v {
				not[k] = true
			}
		}
	}
	return not[10] && not[11]
}

// documentPaths: every operation becomes part of the document.
func (c *Ctx) documentPaths() {
	f := c.method(docPkg, "OpenAPIv3Generator", "addPathsToDocumentV3")
	b := c.method(docPkg, "OpenAPIv3Generator", "buildOperationV3")
	a := c.method(docPkg, "OpenAPIv3Generator", "addOperationV3")
	doc := c.method(docPkg, "OpenAPIv3Generator", "buildDocumentV3")
	sch := c.method(docPkg, "OpenAPIv3Generator", "addSchemasToDocumentV3")
	if f == nil || a == nil || b == nil || doc == nil || sch == nil {
		return
	}
	pathAt := -1
	recv := deepStrip(c.params(f)[0])
	col := deepStrip(mkField(recv, "rawOperations", nil))
	okAny := false
	for _, p := range c.run(f, Cfg{LoopK: 1, Generic: true, Opaque: func(s string) bool { return s == fname(a) || s == fname(b) }}) {
		if !c.Check(p.Outcome == "return", "operations-taken-over", fname(f), p.Pos, "adding the operations panics") {
			continue
		}
		idx, done := elems(p.facts, col)
		c.Check(done, "operations-taken-over", fname(f), p.Pos, "not every operation is added to the document")
		for _, i := range idx {
			okAny = true
			op := mkElem(col, i, nil)
			is := func(t *T, f string) bool { return deepStrip(t) == deepStrip(mkField(op, f, nil)) }
			var built *Event
			for _, e := range p.calls(fname(b)) {
				for k, x := range e.Args {
					if is(x, "path") {
						built, pathAt = e, k
					}
				}
			}
			if !c.Check(built != nil, "operations-taken-over", fname(f), p.Pos, "an operation is left out of the document") {
				continue
			}
			hasParams, hasMsg := false, false
			for k, x := range built.Args {
				hasParams = hasParams || is(x, "params")
				if k < len(built.Deep) {
					hasMsg = hasMsg || contains(deepStrip(built.Deep[k]), deepStrip(mkField(op, "responseMessage", nil)))
				}
			}
			c.Check(hasParams && hasMsg, "operations-taken-over", fname(f), built.Pos, "an operation is built without its parameters or its answer")
			added := false
			for _, e := range p.calls(fname(a)) {
				o, pt, m := false, false, false
				for _, x := range e.Args {
					o = o || deepStrip(x) == deepStrip(built.Res[0])
					pt = pt || deepStrip(x) == deepStrip(built.Res[1])
					m = m || is(x, "method")
				}
				added = added || o && pt && m
			}
			c.Check(added, "operations-taken-over", fname(f), built.Pos, "an operation is not added to the document under its path and method")
		}
	}
	c.Check(okAny, "operations-taken-over", fname(f), c.P.pos(f.Pos()), "no operation is added to the document")
	c.documentOperation(b, pathAt)
	// every file
	files := deepStrip(mkField(mkField(deepStrip(c.params(doc)[0]), "plugin", nil), "Files", nil))
	for _, p := range c.run(doc, Cfg{LoopK: 1, Generic: true, Opaque: func(s string) bool { return s == fname(f) || s == fname(sch) }}) {
		if !c.Check(p.Outcome == "return", "files-taken-over", fname(doc), p.Pos, "building the document panics") {
			continue
		}
		idx, done := elems(p.facts, files)
		c.Check(done, "files-taken-over", fname(doc), p.Pos, "not every file is part of the document")
		for _, g := range []*ssa.Function{f, sch} {
			for _, i := range idx {
				found := false
				for _, e := range p.calls(fname(g)) {
					hasF, hasD := false, false
					for _, x := range e.Args {
						hasF = hasF || deepStrip(x) == deepStrip(mkElem(files, i, nil))
						hasD = hasD || deepStrip(x) == deepStrip(p.Ret[0])
					}
					found = found || hasF && hasD
				}
				c.Check(found, "files-taken-over", fname(doc), p.Pos, "%s is not called for a file", fname(g))
			}
		}
	}
	// an operation is found under its path and method
	methods := map[string]string{"GET": "Get"}
	for m, fld := range methods {
		args := c.params(a)
		in := append([]*T{}, args...)
		in[len(in)-1] = mkStr(m)
		okM := false
		for _, p := range c.runFrom(newState(), a, in, Cfg{}) {
			if !c.Check(p.Outcome == "return", "operation-stored", fname(a), p.Pos, "adding an operation panics") {
				continue
			}
			stored := 0
			var item *T
			for k, v := range p.st.mem {
				if k.Op == "faddr" && k.S == fld && deepStrip(v) == deepStrip(args[2]) {
					stored++
					item = deepStrip(k.A[0])
				}
			}
			if item != nil {
				c.Check(underPath(p, deepStrip(args[1]), item, deepStrip(args[3])), "operation-stored", fname(a), p.Pos, "an operation is stored under another path than its own")
			}
			okM = okM || stored == 1
			c.Check(stored == 1, "operation-stored", fname(a), p.Pos, "an operation of method %s is stored %d times", m, stored)
		}
		c.Check(okM, "operation-stored", fname(a), c.P.pos(a.Pos()), "no operation can be added")
	}
}

// underPath: the path item belongs to the entry of the document whose name is
// path: one found under that name, or one that is added under it because none
// was.
func underPath(p *Path, doc, item, path *T) bool {
	paths := deepStrip(mkField(mkField(doc, "Paths", nil), "Path", nil))
	named := func(e *T) (bool, bool) {
		v, ok := p.facts[mkEqAtom(path, mkField(e, "Name", nil))]
		return v, ok
	}
	if item.Op == "field" && item.S == "Value" {
		v, ok := named(item.A[0])
		return ok && v && item.A[0].Op == "elem" && deepStrip(item.A[0].A[0]) == paths
	}
	idx, done := elems(p.facts, paths)
	absent := done
	for _, i := range idx {
		v, ok := named(mkElem(paths, i, nil))
		absent = absent && ok && !v
		// a nil entry is not one
		if v && ok {
			if n, k := isNilIn(p.facts, mkElem(paths, i, nil)); k && n {
				return true
			}
		}
	}
	for _, e := range p.Events {
		if e.Kind != "store" || len(e.Args) != 2 {
			continue
		}
		v := deepStrip(e.Deep[1])
		if v.Op != "append" || deepStrip(v.A[0]) != paths || deepStrip(v.A[1]).Op != "slicelit" {
			continue
		}
		for _, x := range deepStrip(v.A[1]).A {
			if n := field(x, "Name"); n != nil && same(n, path) {
				return absent
			}
		}
	}
	return false
}

// mkEqAtom is the atom that compares two values.
func mkEqAtom(a, b *T) *T {
	return (&Engine{}).mkEq(newState(), deepStrip(a), deepStrip(b))
}

// plainWire lists the messages that are not written as the object of their
// fields; the two dates are described as strings by the generator this code
// comes from, no object of the repository has one.
var plainWire = map[string]bool{
	".google.protobuf.Timestamp": true, ".google.protobuf.Duration": true, ".google.protobuf.FieldMask": true,
	".google.protobuf.BoolValue": true, ".google.protobuf.StringValue": true, ".google.protobuf.BytesValue": true,
	".google.protobuf.Int32Value": true, ".google.protobuf.Int64Value": true, ".google.protobuf.UInt32Value": true,
	".google.protobuf.UInt64Value": true, ".google.protobuf.FloatValue": true, ".google.protobuf.DoubleValue": true,
	".google.protobuf.Value": true, ".google.protobuf.ListValue": true, ".google.protobuf.Struct": true, ".google.protobuf.Empty": true,
	".google.type.Date": true, ".google.type.DateTime": true,
}

// documentSchemas: each required message of a file is described once, with all
// its fields under the names that answers use.
func (c *Ctx) documentSchemas() {
	f := c.method(docPkg, "OpenAPIv3Generator", "addSchemasToDocumentV3")
	mkGen := c.fn(docPkg, "NewOpenAPIv3Generator")
	if f == nil || mkGen == nil {
		return
	}
	for _, p := range c.run(mkGen, Cfg{}) {
		v := field(p.RetDeep[0], "useFieldNames")
		b, ok := false, v != nil
		if ok {
			b, ok = deepStrip(v).boolVal()
		}
		c.Check(ok && !b, "field-names", fname(mkGen), p.Pos, "fields are not described under their JSON names")
	}
	ps := c.params(f)
	recv, file := deepStrip(ps[0]), deepStrip(ps[len(ps)-1])
	names := mkField(recv, "useFieldNames", nil)
	msgs := deepStrip(mkField(file, "Messages", nil))
	// the functions that look a name up in a list
	lookup := map[string]bool{}
	for _, g := range c.P.Funcs {
		if fnPkgPath(g) == modPath+"/"+docPkg && len(g.Params) == 2 && shortT(g.Params[0].Type()) == "[]string" && shortT(g.Params[1].Type()) == "string" && g.Signature.Results().Len() == 1 && shortT(g.Signature.Results().At(0).Type()) == "bool" {
			lookup[fname(g)] = true
		}
	}
	okAny, refs := false, false
	for _, p := range c.run(f, Cfg{LoopK: 1, Generic: true, Opaque: func(s string) bool { return lookup[s] }}) {
		if !c.Check(p.Outcome == "return", "schemas", fname(f), p.Pos, "describing the messages panics") {
			continue
		}
		idx, done := elems(p.facts, msgs)
		c.Check(done, "schemas", fname(f), p.Pos, "not every message of the file is looked at")
		var adds []*T
		for _, e := range p.Events {
			if e.Kind != "store" || len(e.Args) != 2 || strip(e.Args[0]).Op != "faddr" || strip(e.Args[0]).S != "AdditionalProperties" {
				continue
			}
			v := deepStrip(e.Deep[1])
			good := v.Op == "append" && deepStrip(v.A[1]).Op == "slicelit" && deepStrip(v.A[0]).Op == "field" && deepStrip(v.A[0]).S == "AdditionalProperties"
			if c.Check(good, "schemas", fname(f), e.Pos, "the schemas become %v", v) {
				adds = append(adds, deepStrip(v.A[1]).A...)
			}
		}
		for _, i := range idx {
			m := mkElem(msgs, i, nil)
			md := deepStrip(mkField(m, "Desc", nil))
			// has it been required, was it described?
			in := map[string]bool{}
			known := map[string]bool{}
			for a, v := range p.facts {
				x := a
				if e := p.eventOf(a); e != nil && lookup[e.Fn] {
					x = mk("tuple", "", nil, e.Args...)
				}
				if !contains(x, md) || x.Op == "lt" {
					continue
				}
				for _, l := range []string{"requiredSchemas", "generatedSchemas"} {
					if contains(x, deepStrip(mkField(recv, l, nil))) && !contains(x, deepStrip(mkField(m, "Fields", nil))) {
						in[l] = in[l] || v
						known[l] = true
					}
				}
			}
			var mine []*T
			for _, x := range adds {
				if n := field(x, "Name"); n != nil && contains(deepStrip(n), md) {
					mine = append(mine, x)
				}
			}
			if known["requiredSchemas"] && !in["requiredSchemas"] || in["generatedSchemas"] {
				c.Check(len(mine) == 0, "schemas", fname(f), p.Pos, "a message is described that was described before or not required")
				continue
			}
			if !c.Check(len(mine) == 1, "schemas", fname(f), p.Pos, "a required message is described %d times", len(mine)) {
				continue
			}
			okAny = true
			n := deepStrip(field(mine[0], "Name"))
			c.Check(n.Op == "call" && strings.HasSuffix(n.S, ").FullName"), "schemas", fname(f), p.Pos, "a message is described under the name %v", n)
			fields := deepStrip(mkField(m, "Fields", nil))
			fi, fdone := elems(p.facts, fields)
			c.Check(fdone, "fields", fname(f), p.Pos, "not every field of a message is described")
			var props []*T
			if pr := findTerm(deepStrip(mine[0]), func(t *T) bool {
				return t.Op == "slicelit" && len(t.A) > 0 && field(t.A[0], "Name") != nil && contains(deepStrip(field(t.A[0], "Name")), fields)
			}); pr != nil {
				props = pr.A
			}
			c.Check(len(props) == len(fi), "fields", fname(f), p.Pos, "%d properties are described for %d fields", len(props), len(fi))
			for _, j := range fi {
				fd := deepStrip(mkField(mkElem(fields, j, nil), "Desc", nil))
				found := false
				for _, x := range props {
					nm := deepStrip(field(x, "Name"))
					json := nm.Op == "call" && strings.HasSuffix(nm.S, ").JSONName") && nm.A[0] == fd
					if u, k := decideIn(p.facts, names); k && u {
						json = contains(nm, fd)
					}
					found = found || json
				}
				c.Check(found, "fields", fname(f), p.Pos, "a field is not described under its JSON name")
				// a field with a message refers to its schema
				kind := mk("call", "("+fdPkg+".FieldDescriptor).Kind", nil, fd)
				isMsg, special := false, false
				for a, v := range p.facts {
					if !v || a.Op != "eq" {
						continue
					}
					for k := range a.A {
						x, y := deepStrip(a.A[k]), deepStrip(a.A[1-k])
						if n, ok := y.intVal(); ok && x == kind && n == 11 {
							isMsg = true
						}
						if s, ok := y.strVal(); ok && plainWire[s] && contains(x, deepStrip(mkField(mkElem(fields, j, nil), "Message", nil))) {
							special = true
						}
					}
				}
				if !isMsg || special {
					continue
				}
				refs = true
				ref := false
				for k, v := range p.st.mem {
					ref = ref || k.Op == "faddr" && k.S == "XRef" && refersTo(v, deepStrip(mkField(mkElem(fields, j, nil), "Message", nil)))
				}
				c.Check(ref, "references", fname(f), p.Pos, "a field does not refer to the schema of its message")
			}
		}
	}
	c.Check(okAny, "schemas", fname(f), c.P.pos(f.Pos()), "no message can be described")
	c.Check(refs, "references", fname(f), c.P.pos(f.Pos()), "no field refers to the schema of its message")
}

// refersTo: t is the reference to the schema of the message md is part of,
// made from its package and its own name.
func refersTo(t, md *T) bool {
	t = deepStrip(t)
	root := findTerm(t, func(x *T) bool { s, ok := x.strVal(); return ok && s == "#/components/schemas/" })
	pkg, name := false, false
	for _, x := range subterms(t) {
		if x.Op != "call" || len(x.A) == 0 || !contains(x, md) {
			continue
		}
		pkg = pkg || strings.HasSuffix(x.S, ").Package") || strings.HasSuffix(x.S, ").FullName")
		name = name || strings.HasSuffix(x.S, ").Name") || strings.HasSuffix(x.S, ").FullName")
	}
	return root != nil && pkg && name
}

// documentOperation: an operation has the path, the parameters and the answer
// it is built from.
func (c *Ctx) documentOperation(f *ssa.Function, pathAt int) {
	ps := c.params(f)
	var path, params, out *T
	for i, x := range f.Params {
		switch shortT(x.Type()) {
		case "string":
			if i == pathAt {
				path = deepStrip(ps[i])
			}
		case "[]*github.com/googleapis/gnostic/openapiv3.Parameter":
			params = deepStrip(ps[i])
		case "*google.golang.org/protobuf/compiler/protogen.Message":
			out = deepStrip(ps[i])
		}
	}
	if !c.Check(path != nil && params != nil && out != nil, "operation-built", fname(f), c.P.pos(f.Pos()), "an operation is not built from a path, parameters and an answer") {
		return
	}
	md := deepStrip(mkField(out, "Desc", nil))
	okAny := false
	for _, p := range c.run(f, Cfg{LoopK: 1, Generic: true}) {
		// paths with patterns of their own are not those of objects
		pattern := false
		for _, e := range p.Events {
			if e.Kind == "call" && len(e.Res) == 1 && strings.HasPrefix(e.Fn, "(*regexp.Regexp).") {
				r := deepStrip(e.Res[0])
				if n, known := isNilIn(p.facts, r); known && !n {
					pattern = true
				}
				if empty, known := decideIn(p.facts, (&Engine{}).mkEq(newState(), mk("len", "", nil, r), mkInt(0))); known && !empty {
					pattern = true
				}
				if m, known := decideIn(p.facts, r); known && m {
					pattern = true
				}
			}
		}
		if pattern {
			continue
		}
		if !c.Check(p.Outcome == "return", "operation-built", fname(f), p.Pos, "building an operation panics") {
			continue
		}
		special := false
		for a, v := range p.facts {
			if !v || a.Op != "eq" {
				continue
			}
			for k := range a.A {
				if s, ok := deepStrip(a.A[k]).strVal(); ok && (s == ".google.protobuf.Empty" || s == ".google.api.HttpBody") && contains(a.A[1-k], md) {
					special = true
				}
			}
		}
		c.Check(deepStrip(p.Ret[1]) == path, "operation-built", fname(f), p.Pos, "the operation is added under %v", p.Ret[1])
		idx, done := elems(p.facts, params)
		c.Check(done, "operation-built", fname(f), p.Pos, "not every parameter is described")
		op := deepStrip(p.RetDeep[0])
		got := field(op, "Parameters")
		for _, i := range idx {
			okAny = true
			c.Check(got != nil && contains(deepStrip(got), mkElem(params, i, nil)), "operation-built", fname(f), p.Pos, "a parameter is not described")
		}
		if special {
			continue
		}
		resp := field(op, "Responses")
		ref := false
		if resp != nil {
			x := deepStrip(resp)
			for _, a := range subterms(x) {
				if a.Op == "alloc" {
					x = mk("tuple", "", nil, x, (&Engine{}).deep(p.st, a))
				}
			}
			for _, x := range subterms(x) {
				if v := field(x, "XRef"); v != nil {
					ref = ref || refersTo(v, md)
				}
			}
		}
		c.Check(ref, "operation-built", fname(f), p.Pos, "the answer of an operation does not refer to the schema of its message")
	}
	c.Check(okAny, "operation-built", fname(f), c.P.pos(f.Pos()), "no parameter is described")
}

// documentServed: the document served is the one of the builder's generator.
func (c *Ctx) documentServed() {
	f := c.method("core/apiserver/router", "Builder", "Build")
	b := c.method(docPkg, "OpenAPIv3Generator", "Build")
	if f == nil || b == nil {
		return
	}
	okAny := false
	for _, p := range c.run(f, Cfg{Opaque: func(s string) bool { return s == fname(b) }}) {
		if !c.Check(p.Outcome == "return", "document-served", fname(f), p.Pos, "building the gateway panics") {
			continue
		}
		es := p.calls(fname(b))
		facts, ok := p.success()
		if !ok {
			c.Check(p.failedStep() != nil, "document-served", fname(f), p.Pos, "the gateway is refused although no step failed")
			continue
		}
		okAny = true
		if !c.Check(len(es) == 1 && es[0].okIn(facts), "document-served", fname(f), p.Pos, "the gateway is built without its document") {
			continue
		}
		found := false
		for _, r := range gwRoutes(p) {
			h, args, ps := c.handlerOf(p, r.h)
			if h == nil || len(args) != 2 {
				continue
			}
			for _, q := range ps {
				for _, w := range responses(q, args[0], 0) {
					if w.body != nil && contains(w.body, deepStrip(es[0].Res[0])) || w.body != nil && c.encodes(p, w.body, es[0]) {
						found = true
					}
				}
			}
		}
		c.Check(found, "document-served", fname(f), p.Pos, "no route answers with the document")
	}
	c.Check(okAny, "document-served", fname(f), c.P.pos(f.Pos()), "the gateway can not be built")
	// the generator's Build
	okAny = false
	pl := c.method(docPkg, "OpenAPIv3Generator", "pluginFromRegistry")
	doc := c.method(docPkg, "OpenAPIv3Generator", "buildDocumentV3")
	if pl == nil || doc == nil {
		return
	}
	for _, p := range c.run(b, Cfg{Opaque: func(s string) bool { return s == fname(pl) || s == fname(doc) }}) {
		facts, ok := p.success()
		if p.Outcome != "return" || !ok {
			c.Check(p.Outcome == "return" && p.failedStep() != nil, "document-built", fname(b), p.Pos, "no document is made although no step failed")
			continue
		}
		okAny = true
		d := p.eventOf(deepStrip(p.Ret[0]))
		l := p.calls(fname(pl))
		c.Check(d != nil && d.Fn == fname(doc) && len(l) == 1 && l[0].okIn(facts) && l[0].Seq < d.Seq, "document-built", fname(b), p.Pos, "a document is made although its files may not be resolved")
	}
	c.Check(okAny, "document-built", fname(b), c.P.pos(b.Pos()), "no document can be made")
}

// encodes: the body is the encoding of the event's document.
func (c *Ctx) encodes(p *Path, body *T, e *Event) bool {
	doc := deepStrip(e.Res[0])
	ok := false
	for _, x := range subterms(body) {
		if y := p.eventOf(x); y != nil {
			for _, a := range append(append([]*T{}, y.Args...), y.Recv) {
				ok = ok || a != nil && contains(deepStrip(a), doc)
			}
		}
	}
	return ok
}
