package main

// r_codegen.go: what is declared in protobuf - which messages are objects and
// transitions of the state, and how objects are keyed - against the
// definitions, schemas and typed clients written for it.

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "The annotations of every message are read from the protobuf descriptors embedded in the source; every API definition, constructor, schema, registration, typed client, iterator and client set is run through the engine and its result or the calls it makes are compared with the annotation.", c22)
}

// ---------------------------------------------------------------- descriptors

type protoField struct {
	num        uint64
	name, json string
	kind       uint64 // descriptor.proto FieldDescriptorProto.Type
	label      uint64
}

type protoMsg struct {
	pkg, name  string
	fields     []protoField
	object     bool
	transition bool
	singleton  bool
	primary    string
	secondary  []string
	pos        string
}

const (
	extTransition = 1110001
	extObject     = 1110002
)

// wireFields splits a protobuf message into its fields.
func wireFields(b []byte, f func(num uint64, typ uint64, v uint64, data []byte)) bool {
	uv := func() (uint64, bool) {
		var x uint64
		for i := 0; i < 10; i++ {
			if len(b) == 0 {
				return 0, false
			}
			c := b[0]
			b = b[1:]
			x |= uint64(c&0x7f) << (7 * i)
			if c < 0x80 {
				return x, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		k, ok := uv()
		if !ok {
			return false
		}
		switch k & 7 {
		case 0:
			v, ok := uv()
			if !ok {
				return false
			}
			f(k>>3, 0, v, nil)
		case 1:
			if len(b) < 8 {
				return false
			}
			b = b[8:]
		case 5:
			if len(b) < 4 {
				return false
			}
			b = b[4:]
		case 2:
			n, ok := uv()
			if !ok || uint64(len(b)) < n {
				return false
			}
			f(k>>3, 2, 0, b[:n])
			b = b[n:]
		default:
			return false
		}
	}
	return true
}

func jsonName(s string) string {
	var out []byte
	up := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '_':
			up = true
		case up && s[i] >= 'a' && s[i] <= 'z':
			out = append(out, s[i]-32)
			up = false
		default:
			out = append(out, s[i])
			up = false
		}
	}
	return string(out)
}

// protoFile decodes a file descriptor: its top level messages.
func protoFile(b []byte) []*protoMsg {
	pkg := ""
	var out []*protoMsg
	wireFields(b, func(n, t, v uint64, d []byte) {
		switch {
		case n == 2 && t == 2:
			pkg = string(d)
		case n == 4 && t == 2:
			m := &protoMsg{}
			wireFields(d, func(n, t, v uint64, d []byte) {
				switch {
				case n == 1 && t == 2:
					m.name = string(d)
				case n == 2 && t == 2:
					var f protoField
					wireFields(d, func(n, t, v uint64, d []byte) {
						switch n {
						case 1:
							f.name = string(d)
						case 3:
							f.num = v
						case 4:
							f.label = v
						case 5:
							f.kind = v
						case 10:
							f.json = string(d)
						}
					})
					if f.json == "" {
						f.json = jsonName(f.name)
					}
					m.fields = append(m.fields, f)
				case n == 7 && t == 2:
					wireFields(d, func(n, t, v uint64, d []byte) {
						switch n {
						case extTransition:
							m.transition = true
						case extObject:
							m.object = true
							wireFields(d, func(n, t, v uint64, d []byte) {
								switch n {
								case 1:
									m.singleton = v != 0
								case 2:
									m.primary = string(d)
								case 3:
									m.secondary = append(m.secondary, string(d))
								}
							})
						}
					})
				}
			})
			out = append(out, m)
		}
	})
	for _, m := range out {
		m.pkg = pkg
	}
	return out
}

// messages reads the descriptors embedded in the generated code of the
// repository: Go type to message.
func (c *Ctx) messages() map[*types.Named]*protoMsg {
	out := map[*types.Named]*protoMsg{}
	for _, pk := range c.P.Pkgs {
		for _, file := range pk.Syntax {
			for _, d := range file.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok || len(vs.Names) != 1 || len(vs.Values) != 1 || !strings.HasPrefix(vs.Names[0].Name, "file_") || !strings.HasSuffix(vs.Names[0].Name, "_rawDesc") {
						continue
					}
					lit, ok := vs.Values[0].(*ast.CompositeLit)
					if !ok {
						continue
					}
					var b []byte
					for _, e := range lit.Elts {
						if l, ok := e.(*ast.BasicLit); ok {
							n, err := strconv.ParseUint(l.Value, 0, 8)
							if err == nil {
								b = append(b, byte(n))
							}
						}
					}
					for _, m := range protoFile(b) {
						tn, ok := pk.Types.Scope().Lookup(m.name).(*types.TypeName)
						if !ok {
							continue
						}
						if n, ok := tn.Type().(*types.Named); ok {
							m.pos = c.P.pos(tn.Pos())
							out[n] = m
						}
					}
				}
			}
		}
	}
	return out
}

// ------------------------------------------------------------------------ rule

// the client which the typed clients are made for is arbitrary
func codegenCfg() Cfg {
	return Cfg{NoDevirt: true, Opaque: func(n string) bool { return n == fnIterGet || n == fnIterValid || n == fnIterNext }}
}

func c22(c *Ctx) {
	msgs := c.messages()
	var ts []*types.Named
	for t := range msgs {
		if !strings.Contains(t.Obj().Pkg().Path(), "/testdata/") {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
	objI, trI := c.iface("core/meta", "StateObject"), c.iface("core/meta", "StateTransition")
	apiI := c.iface("core/meta", "APIObject")
	if objI == nil || trI == nil || apiI == nil {
		return
	}
	seen := map[string]string{}
	for _, t := range ts {
		m := msgs[t]
		pt := types.NewPointer(t)
		name := shortT(t)
		c.Check(!(m.object && m.transition), "one-kind", name, m.pos, "%s is declared to be both an object and a transition", name)
		c.Check(types.Implements(pt, objI) == m.object, "is-object", name, m.pos, "%s is an object of the state in Go or in protobuf, but not in both", name)
		c.Check(types.Implements(pt, trI) == m.transition, "is-transition", name, m.pos, "%s is a transition in Go or in protobuf, but not in both", name)
		if !m.object && !m.transition {
			continue
		}
		c.apiDefinition(t, m, seen)
		if m.object {
			c.objectSchema(t, m)
		}
	}
	// handwritten definitions would not be checked
	for _, t := range c.P.repoTypes() {
		path := t.Obj().Pkg().Path()
		if strings.Contains(path, "/testdata/") || types.IsInterface(t) {
			continue
		}
		if types.Implements(types.NewPointer(t), apiI) {
			_, ok := msgs[t]
			c.Check(ok, "declared", shortT(t), c.P.pos(t.Obj().Pos()), "%s is an object or transition without protobuf declaration", shortT(t))
		}
	}
	c.registered(msgs, ts)
	c.clientSets(msgs, ts)
	c.metaIDs()
}

func (c *Ctx) iface(pkg, name string) *types.Interface {
	n := c.P.named(pkg, name)
	if n == nil {
		c.Fail("anchor:"+pkg+"."+name, "-", "%s.%s not found", pkg, name)
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

// apiDefinition: a message's definition names it and its kind, and its
// constructor makes an empty one.
func (c *Ctx) apiDefinition(t *types.Named, m *protoMsg, seen map[string]string) {
	pt := types.NewPointer(t)
	if f := c.methodFor(pt, "APIDefinition"); f != nil {
		for _, p := range c.run(f, codegenCfg()) {
			if !c.Check(p.Outcome == "return", "definition", fname(f), p.Pos, "the definition of %s can panic", m.name) {
				continue
			}
			d := deepStrip(p.RetDeep[0])
			str := func(n string) string {
				x := field(d, n)
				if x == nil {
					return "?"
				}
				s, _ := deepStrip(x).strVal()
				return s
			}
			c.Check(objType(d) == "core/meta.APIDefinition" && str("Group") == m.pkg, "definition-group", fname(f), p.Pos, "%s has group %q, its package is %q", m.name, str("Group"), m.pkg)
			c.Check(str("Kind") == m.name, "definition-kind", fname(f), p.Pos, "%s has kind %q", m.name, str("Kind"))
			want := "APIType_StateTransition"
			if m.object {
				want = "APIType_StateObject"
			}
			w, wk := c.P.constInt("core/meta", want)
			x := field(d, "ApiType")
			var n int64
			k := false
			if x != nil {
				n, k = deepStrip(x).intVal()
			}
			c.Check(wk && k && n == w, "definition-type", fname(f), p.Pos, "%s has another API type than %s", m.name, want)
			id := str("Group") + "." + str("Kind")
			c.Check(seen[id] == "", "definition-unique", fname(f), p.Pos, "%s and %s have the same name %s", seen[id], m.name, id)
			seen[id] = m.name
		}
	}
	ctor := "NewStateTransition"
	if m.object {
		ctor = "NewStateObject"
	}
	if f := c.methodFor(pt, ctor); f != nil {
		for _, p := range c.run(f, codegenCfg()) {
			c.Check(p.Outcome == "return" && emptyNew(p, p.Ret[0], pt), "constructor", fname(f), p.Pos, "%s of %s does not make an empty %s", ctor, m.name, m.name)
		}
	}
}

// emptyNew: the value is a new, empty message of the type.
func emptyNew(p *Path, t *T, pt types.Type) bool {
	ct, x := boxed(t)
	if ct == nil {
		ct = t.Typ
	}
	if ct == nil || !types.Identical(ct, pt) {
		return false
	}
	x = strip(x)
	if x.Op != "alloc" {
		return false
	}
	for k := range p.st.mem {
		if under(k, x) {
			return false
		}
	}
	v := p.st.mem[x]
	return v == nil || v.Op == "obj" && bigZero(v) || v.Op == "zero"
}

func sameStrings(t *T, want []string) bool {
	if t == nil || deepStrip(t).isNil() {
		return len(want) == 0
	}
	t = unslice(t)
	if t.Op != "slicelit" || len(t.A) != len(want) {
		return false
	}
	for i, a := range t.A {
		if s, ok := deepStrip(a).strVal(); !ok || s != want[i] {
			return false
		}
	}
	return true
}

// definitionIs compares a schema definition with an annotation.
func (c *Ctx) definitionIs(d *T, m *protoMsg, rule, construct, pos string) {
	d = deepStrip(d)
	if d != nil && d.Op == "ref" {
		d = deepStrip(d.A[0])
	}
	if !c.Check(objType(d) == "runtime/orm/schema.Definition", rule, construct, pos, "the schema of %s is not a definition known from the source", m.name) {
		return
	}
	b, bk := deepStrip(field(d, "Singleton")).boolVal()
	s, sk := deepStrip(field(d, "PrimaryKey")).strVal()
	c.Check(bk && b == m.singleton, rule, construct, pos, "the schema of %s says single instance %v, its declaration %v", m.name, b, m.singleton)
	c.Check(sk && s == m.primary, rule, construct, pos, "the schema of %s has primary key %q, its declaration %q", m.name, s, m.primary)
	c.Check(sameStrings(field(d, "SecondaryKeys"), m.secondary), rule, construct, pos, "the schema of %s has secondary keys %v, its declaration %v", m.name, field(d, "SecondaryKeys"), m.secondary)
}

func (c *Ctx) objectSchema(t *types.Named, m *protoMsg) {
	name := shortT(t) + "Schema"
	// the declaration makes sense
	have := map[string]protoField{}
	for _, f := range m.fields {
		have[f.json] = f
	}
	c.Check(m.singleton == (m.primary == ""), "declaration", name, m.pos, "%s must either have a primary key or be single", m.name)
	if m.primary != "" {
		f, ok := have[m.primary]
		c.Check(ok && f.label != 3, "declaration", name, m.pos, "the primary key %s of %s is not a single field of it", m.primary, m.name)
	}
	dup := map[string]bool{}
	for _, s := range m.secondary {
		_, ok := have[s]
		c.Check(ok && !dup[s], "declaration", name, m.pos, "the secondary key %s of %s is not a field of it, or given twice", s, m.name)
		dup[s] = true
	}
	g := c.global(name)
	if !c.Check(g != nil, "schema", name, m.pos, "%s has no schema", m.name) {
		return
	}
	v := c.initialValue(name)
	if !c.Check(v != nil, "schema", name, m.pos, "the schema of %s is not only its initial value", m.name) {
		return
	}
	c.definitionIs(v, m, "schema", name, m.pos)
}

// registered: modules register objects with the schema of their declaration.
func (c *Ctx) registered(msgs map[*types.Named]*protoMsg, ts []*types.Named) {
	s := c.system()
	home := map[string]bool{}
	objs, execs := map[*types.Named]int{}, map[*types.Named]int{}
	for _, mod := range s.Mods {
		for _, h := range mod.H {
			if n := ptrNamed(h.Trans); h.Kind == "exec" && n != nil {
				execs[n]++
				home[n.Obj().Pkg().Path()] = true
			}
		}
		for _, o := range mod.Objs {
			if n := ptrNamed(o.Typ); n != nil {
				objs[n]++
				home[n.Obj().Pkg().Path()] = true
			}
		}
	}
	for _, t := range ts {
		m := msgs[t]
		if !home[t.Obj().Pkg().Path()] {
			continue // no module of the system uses this package
		}
		if m.object {
			c.Check(objs[t] == 1, "registered-once", shortT(t), m.pos, "%s is registered by %d modules", m.name, objs[t])
		}
		if m.transition {
			c.Check(execs[t] <= 1, "executed-once", shortT(t), m.pos, "%s has %d execution handlers", m.name, execs[t])
		}
	}
	for _, mod := range s.Mods {
		for _, o := range mod.Objs {
			pt, ok := o.Typ.(*types.Pointer)
			if !ok {
				continue
			}
			n, ok := pt.Elem().(*types.Named)
			if !ok || strings.Contains(n.Obj().Pkg().Path(), "/testdata/") {
				continue
			}
			m := msgs[n]
			if m == nil {
				continue
			}
			d := deepStrip(o.Sch)
			for d != nil && d.Op == "deref" {
				d = deepStrip(d.A[0])
			}
			if d != nil && (d.Op == "gval" || d.Op == "global") {
				if v := c.initialValue(d.S); v != nil {
					d = v
				}
			}
			c.definitionIs(d, m, "registration", shortT(n), "-")
		}
	}
}

// metaIDs: the constructors of ids keep the key as it is.
func (c *Ctx) metaIDs() {
	for _, n := range []string{"StringID", "BytesID"} {
		mkID := c.fn("core/meta", "New"+n)
		by := c.method("core/meta", n, "Bytes")
		if mkID == nil || by == nil {
			continue
		}
		for _, p := range c.run(mkID, codegenCfg()) {
			c.Check(p.Outcome == "return" && bytesAre(p.RetDeep[0], mk("param", mkID.Params[0].Name(), nil)), "id", fname(mkID), p.Pos, "the id made is not the key")
		}
		for _, p := range c.run(by, codegenCfg()) {
			c.Check(p.Outcome == "return" && bytesAre(p.RetDeep[0], mk("param", by.Params[0].Name(), nil)), "id-bytes", fname(by), p.Pos, "the bytes of an id are not those of the key")
		}
	}
}

// ---------------------------------------------------------------- typed clients

const (
	fnIterGet   = "(runtime/orm.Iterator).Get"
	fnIterValid = "(runtime/orm.Iterator).Valid"
	fnIterNext  = "(runtime/orm.Iterator).Next"
)

// ptrNamed is the named type a pointer type points to.
func ptrNamed(t types.Type) *types.Named {
	p, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := p.Elem().(*types.Named)
	return n
}

// bytesAre: a has the bytes of b, a copy of them included.
func bytesAre(a, b *T) bool {
	a = deepStrip(a)
	if unconv(a) == b {
		return true
	}
	ps := rawPieces(a)
	return len(ps) == 1 && ps[0].kind == "val" && unconv(ps[0].t) == b
}

// argOf is an arbitrary argument of a method.
func argOf(f *ssa.Function, i int) *T {
	return mk("param", fname(f)+"#"+strconv.Itoa(i), f.Params[i].Type())
}

func (c *Ctx) clientSets(msgs map[*types.Named]*protoMsg, ts []*types.Named) {
	got := map[*types.Named]int{}
	byPkg := map[string]bool{}
	for _, t := range ts {
		if m := msgs[t]; m.object || m.transition {
			byPkg[strings.TrimPrefix(t.Obj().Pkg().Path(), modPath+"/")] = true
		}
	}
	var pkgs []string
	for p := range byPkg {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, pkg := range pkgs {
		f := c.fn(pkg, "NewClientSet")
		if f == nil {
			continue
		}
		cl := mk("param", f.Params[0].Name(), nil)
		it, _ := f.Signature.Results().At(0).Type().Underlying().(*types.Interface)
		ps := c.run(f, codegenCfg())
		if !c.Check(it != nil && len(ps) == 1 && ps[0].Outcome == "return", "client-set", fname(f), c.P.pos(f.Pos()), "making a client set can fail") {
			continue
		}
		p := ps[0]
		dyn, set := boxed(p.Ret[0])
		if !c.Check(dyn != nil, "client-set", fname(f), p.Pos, "the type of the client set is not known") {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			sig := m.Type().(*types.Signature)
			g := c.methodFor(dyn, m.Name())
			if g == nil {
				continue
			}
			if sig.Params().Len() == 1 && sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type()) {
				n := ptrNamed(sig.Params().At(0).Type())
				if !c.Check(n != nil && msgs[n] != nil && msgs[n].transition && m.Name() == "Exec"+msgs[n].name, "exec", fname(g), c.P.pos(g.Pos()), "%s does not execute the transition it is named after", m.Name()) {
					continue
				}
				got[n]++
				arg := argOf(g, 1)
				for _, q := range c.runFrom(p.st, g, []*T{set, arg}, codegenCfg()) {
					c.forwards(q, "exec", fname(g), fnClientDlv, cl, func(e *Event) bool { return unboxed(e.Args[0]) == arg })
				}
				continue
			}
			if !c.Check(sig.Params().Len() == 0 && sig.Results().Len() == 1, "client-set", fname(g), c.P.pos(g.Pos()), "%s is neither the client of an object nor executes a transition", m.Name()) {
				continue
			}
			for _, q := range c.runFrom(p.st, g, []*T{set}, codegenCfg()) {
				if !c.Check(q.Outcome == "return" && len(q.Events) == 0, "client-set", fname(g), q.Pos, "getting a client can fail") {
					continue
				}
				ct, tc := boxed(q.Ret[0])
				if !c.Check(ct != nil, "client-set", fname(g), q.Pos, "the type of the client %s is not known", m.Name()) {
					continue
				}
				c.typedClient(q.st, m.Name(), ct, tc, cl, msgs, got)
			}
		}
	}
	for _, t := range ts {
		if m := msgs[t]; m.object || m.transition {
			c.Check(got[t] == 1, "client-set-complete", shortT(t), m.pos, "%s has %d clients in the client set of its package", m.name, got[t])
		}
	}
}

// forwards: the path does exactly one call, of the given method on the
// client, and returns its error.
func (c *Ctx) forwards(p *Path, rule, construct, fn string, cl *T, args func(e *Event) bool) *Event {
	if !c.Check(p.Outcome == "return" && len(p.Events) == 1 && p.Events[0].Fn == fn && unboxed(p.Events[0].Recv) == cl && args(p.Events[0]), rule, construct, p.Pos, "%s does not do exactly one %s of what it is given on its client", construct, shortName(fn)) {
		return nil
	}
	e := p.Events[0]
	err := e.Res[len(e.Res)-1]
	for _, o := range outcomesOf(p) {
		if o.val {
			c.Check(e.okIn(o.facts), rule+"-error", construct, p.Pos, "%s hides a failure", construct)
		} else {
			c.Check(e.failedIn(o.facts) && wrapsValue(p.errRet(), err), rule+"-error", construct, p.Pos, "%s fails although the client did not, or with another error", construct)
		}
	}
	return e
}

// typedClient: the client of one object.
func (c *Ctx) typedClient(st *state, acc string, ct types.Type, tc, cl *T, msgs map[*types.Named]*protoMsg, got map[*types.Named]int) {
	get := c.methodFor(ct, "Get")
	if !c.Check(get != nil && get.Signature.Results().Len() == 2, "client", shortT(ct), "-", "%s has no Get", shortT(ct)) {
		return
	}
	n := ptrNamed(get.Signature.Results().At(0).Type())
	m := msgs[n]
	if !c.Check(n != nil && m != nil && m.object, "client", shortT(ct), c.P.pos(get.Pos()), "%s does not get an object of the state", shortT(ct)) {
		return
	}
	got[n]++
	c.Check(acc == m.name || acc == m.name+"s", "client-name", shortT(ct), c.P.pos(get.Pos()), "the client of %s is called %s", m.name, acc)
	pt := types.NewPointer(n)
	// get
	var gargs []*T
	for i := 1; i < len(get.Params); i++ {
		gargs = append(gargs, argOf(get, i))
	}
	if c.Check(len(gargs) == 2 && !m.singleton || len(gargs) == 1 && m.singleton, "get-key", fname(get), c.P.pos(get.Pos()), "%s is not got by its key", m.name) {
		if !m.singleton {
			k := ""
			for _, f := range m.fields {
				if f.json == m.primary {
					k = map[uint64]string{9: "string", 12: "[]byte"}[f.kind]
				}
			}
			c.Check(get.Params[1].Type().String() == k, "get-key", fname(get), c.P.pos(get.Pos()), "the key of %s is given as %v", m.name, get.Params[1].Type())
		}
		n := 0
		for _, p := range c.runFrom(st, get, append([]*T{tc}, gargs...), codegenCfg()) {
			if !c.Check(p.Outcome == "return" && len(p.Ret) == 2, "get", fname(get), p.Pos, "getting %s can panic", m.name) {
				continue
			}
			var obj *T
			e := c.forwards(p, "get", fname(get), fnClientGet, cl, func(e *Event) bool {
				ot, x := boxed(e.Args[1])
				obj = strip(x)
				return ot != nil && types.Identical(ot, pt) && obj.Op == "alloc" && deepStrip(e.Args[2]) == gargs[len(gargs)-1] && c.keyIs(p.st, e.Args[0], m, gargs)
			})
			if e == nil {
				continue
			}
			for _, o := range outcomesOf(p) {
				if o.val {
					n++
					c.Check(strip(p.Ret[0]) == obj, "get-result", fname(get), p.Pos, "Get does not return the object which the client filled in")
				}
			}
		}
		c.Check(n > 0, "get", fname(get), c.P.pos(get.Pos()), "%s can never be got", m.name)
	}
	for _, w := range []struct{ name, fn string }{{"Create", fnClientCr}, {"Update", fnClientUp}, {"Delete", fnClientDel}} {
		f := c.methodFor(ct, w.name)
		if !c.Check(f != nil && len(f.Params) == 3 && types.Identical(f.Params[1].Type(), pt), "write", shortT(ct)+"."+w.name, "-", "%s has no %s of %s", shortT(ct), w.name, m.name) {
			continue
		}
		a, o := argOf(f, 1), argOf(f, 2)
		for _, p := range c.runFrom(st, f, []*T{tc, a, o}, codegenCfg()) {
			c.forwards(p, "write", fname(f), w.fn, cl, func(e *Event) bool { return unboxed(e.Args[0]) == a && deepStrip(e.Args[1]) == o })
		}
	}
	list := c.methodFor(ct, "List")
	if !c.Check((list != nil) == !m.singleton, "list", shortT(ct), "-", "%s can be listed although it is single, or the reverse", m.name) || list == nil {
		return
	}
	o := argOf(list, 1)
	for _, p := range c.runFrom(st, list, []*T{tc, o}, codegenCfg()) {
		e := c.forwards(p, "list", fname(list), fnClientList, cl, func(e *Event) bool {
			ot, _ := boxed(e.Args[0])
			return ot != nil && types.Identical(ot, pt) && deepStrip(e.Args[1]) == o
		})
		if e == nil {
			continue
		}
		for _, r := range outcomesOf(p) {
			if r.val {
				it, x := boxed(p.Ret[0])
				if c.Check(it != nil, "list-result", fname(list), p.Pos, "the type of the iterator is not known") {
					c.typedIterator(p.st, it, x, e.Res[0], pt, m)
				}
			}
		}
	}
}

func (c *Ctx) typedIterator(st *state, it types.Type, x, inner *T, pt types.Type, m *protoMsg) {
	run := func(name string) []*Path {
		f := c.methodFor(it, name)
		if f == nil || len(f.Params) != 1 {
			c.Check(false, "iterator", shortT(it), "-", "the iterator over %s has no %s", m.name, name)
			return nil
		}
		ps := c.runFrom(st, f, []*T{x}, codegenCfg())
		var out []*Path
		want := map[string]string{"Get": fnIterGet, "Valid": fnIterValid, "Next": fnIterNext}[name]
		for _, p := range ps {
			var es []*Event
			for _, e := range p.Events {
				if strings.HasPrefix(e.Fn, "(runtime/orm.Iterator).") {
					es = append(es, e)
				}
			}
			if c.Check(p.Outcome == "return" && len(es) == 1 && es[0].Fn == want && deepStrip(es[0].Args[0]) == deepStrip(inner), "iterator", fname(f), p.Pos, "%s of the iterator over %s does not do exactly one %s on its own iterator", name, m.name, name) {
				out = append(out, p)
			}
		}
		return out
	}
	last := func(p *Path) *Event { return p.callsAny(fnIterGet, fnIterValid, fnIterNext)[0] }
	for _, p := range run("Get") {
		e := last(p)
		ot, o := boxed(e.Args[1])
		c.Check(ot != nil && types.Identical(ot, pt), "iterator-get", shortT(it), p.Pos, "the iterator over %s gets another object", m.name)
		for _, r := range outcomesOf(p) {
			if r.val {
				c.Check(e.okIn(r.facts) && strip(p.Ret[0]) == strip(o), "iterator-get", shortT(it), p.Pos, "the iterator over %s does not return the object it read, or hides a failure", m.name)
			} else {
				c.Check(e.failedIn(r.facts) && wrapsValue(p.errRet(), e.Res[0]), "iterator-get", shortT(it), p.Pos, "the iterator over %s fails although the read did not, or with another error", m.name)
			}
		}
	}
	for _, p := range run("Valid") {
		e := last(p)
		for _, a := range answersOf(p, p.Ret[0]) {
			v, k := decideIn(a.facts, deepStrip(e.Res[0]))
			c.Check(k && v == a.val, "iterator-valid", shortT(it), p.Pos, "the iterator over %s is valid although its own is not, or the reverse", m.name)
		}
	}
	run("Next")
}

// keyIs: the id asked for has the bytes of the key given.
func (c *Ctx) keyIs(st *state, id *T, m *protoMsg, args []*T) bool {
	if m.singleton {
		t := unboxed(id)
		for t.Op == "deref" {
			t = t.A[0]
		}
		return (t.Op == "gval" || t.Op == "global") && t.S == "core/meta.SingletonID"
	}
	ct, x := boxed(id)
	if ct == nil {
		return false
	}
	f := c.methodFor(ct, "Bytes")
	if f == nil {
		return false
	}
	ok := false
	for _, p := range c.runFrom(st, f, []*T{x}, codegenCfg()) {
		if p.Outcome != "return" || !bytesAre(p.RetDeep[0], args[0]) {
			return false
		}
		ok = true
	}
	return ok
}
