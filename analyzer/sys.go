package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sys is the module wiring of the system, obtained by evaluating the
// Initialize method of every module in the repository abstractly.
type Sys struct {
	Mods []*Mod
}

// Handler is one handler registered by a module.
type Handler struct {
	Mod   *Mod
	Kind  string // exec, preexec, postexec, admission, auth, postauth
	Trans types.Type
	Val   *T // the interface value
	Typ   types.Type
	Fn    *ssa.Function
	Raw   *T
}

type Mod struct {
	Type  types.Type
	Name  string
	Init  *ssa.Function
	st    *state
	desc  *T
	Deep  *T
	H     []*Handler
	Objs  []*ObjDecl
	Needs []types.Type
	Svcs  []*T
	Auth  *T
	Gen   *T
}

type ObjDecl struct {
	Mod *Mod
	Typ types.Type
	Sch *T
}

func boxed(t *T) (types.Type, *T) {
	for t != nil && t.Op == "as" {
		t = t.A[0]
	}
	if t != nil && t.Op == "iface" {
		ct, _ := t.X.(types.Type)
		return ct, t.A[0]
	}
	return nil, t
}

func tname(t types.Type) string {
	if t == nil {
		return "?"
	}
	return strings.TrimPrefix(shortT(t), "*")
}

// initGlobals applies the stores of the package initialisers that create
// package-level values, so that descriptors reference known schemas. Globals
// stay symbolic; nothing is needed here.

func (c *Ctx) system() *Sys {
	if c.sys != nil {
		return c.sys
	}
	s := &Sys{}
	c.sys = s
	mi := c.P.named("runtime/module", "Module")
	if mi == nil {
		c.Fail("anchor:module.Module", "-", "the module interface was not found")
		return s
	}
	for _, mt := range c.P.implementers(mi) {
		f := c.P.methodOf(derefT(mt), "Initialize")
		if f == nil || f.Blocks == nil {
			continue
		}
		if strings.HasPrefix(fnPkgPath(f), modPath+"/testdata") {
			continue
		}
		e := c.P.engine(Cfg{})
		ps := e.RunFn(f)
		for v := range e.Visited {
			c.fns[fname(v)] = true
		}
		c.paths += len(ps)
		n := 0
		for _, p := range ps {
			if p.Outcome != "return" || len(p.Ret) != 1 {
				continue
			}
			m := &Mod{Type: mt, Init: f, st: p.st, desc: p.Ret[0], Deep: p.RetDeep[0]}
			m.read(c)
			s.Mods = append(s.Mods, m)
			n++
		}
		if n != 1 {
			c.Fail("undecided:"+fname(f), c.P.pos(f.Pos()), "%s has %d ways to return a descriptor; its wiring cannot be read off", fname(f), n)
		}
	}
	return s
}

func derefT(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// items returns the elements of a slice value whose content is known.
func items(st *state, e *Engine, t *T) ([]*T, bool) {
	if t == nil || t.isNil() {
		return nil, true
	}
	switch t.Op {
	case "slicelit":
		return t.A, true
	case "append":
		a, ok1 := items(st, e, t.A[0])
		b, ok2 := items(st, e, t.A[1])
		return append(append([]*T(nil), a...), b...), ok1 && ok2
	case "slice":
		if t.A[0].Op == "alloc" {
			s := e.deepShallow(st, t)
			if s.Op == "slicelit" {
				return s.A, true
			}
		}
	case "zeroarr":
		return nil, true
	}
	return nil, false
}

func (m *Mod) read(c *Ctx) {
	e := c.P.engine(Cfg{})
	d := m.desc
	if n, ok := field(d, "Name").strVal(); ok {
		m.Name = n
	} else {
		c.Fail("undecided:"+fname(m.Init)+".Name", c.P.pos(m.Init.Pos()), "module name is not a constant")
	}
	get := func(f string) []*T {
		xs, ok := items(m.st, e, field(d, f))
		if !ok {
			c.Fail("undecided:"+fname(m.Init)+"."+f, c.P.pos(m.Init.Pos()), "the %s declared by module %s cannot be read off: %v", f, m.Name, field(d, f))
		}
		return xs
	}
	hs := func(f, kind, hf, method string) {
		for _, x := range get(f) {
			var tr types.Type
			hv := x
			if hf != "" {
				tr, _ = boxed(field(x, "StateTransition"))
				hv = field(x, hf)
			}
			ht, raw := boxed(hv)
			if ht == nil {
				c.Fail("undecided:"+fname(m.Init)+"."+f, c.P.pos(m.Init.Pos()), "a handler of module %s is not a known value: %v", m.Name, hv)
				continue
			}
			h := &Handler{Mod: m, Kind: kind, Trans: tr, Val: hv, Typ: ht, Raw: raw}
			h.Fn = c.methodFor(ht, method)
			if h.Fn == nil {
				c.Fail("undecided:"+tname(ht)+"."+method, "-", "method %s of %s not found", method, tname(ht))
				continue
			}
			m.H = append(m.H, h)
		}
	}
	hs("StateTransitionExecutionHandlers", "exec", "Handler", "Exec")
	hs("StateTransitionPreExecHandlers", "preexec", "Handler", "PreExec")
	hs("StateTransitionPostExecutionHandlers", "postexec", "Handler", "PostExec")
	hs("StateTransitionAdmissionHandlers", "admission", "AdmissionHandler", "Validate")
	hs("AuthAdmissionHandlers", "auth", "", "Validate")
	hs("PostAuthenticationHandler", "postauth", "", "Exec")
	for _, x := range get("StateObjects") {
		t, _ := boxed(field(x, "StateObject"))
		m.Objs = append(m.Objs, &ObjDecl{m, t, field(x, "SchemaDefinition")})
	}
	for _, x := range get("Needs") {
		t, _ := boxed(x)
		m.Needs = append(m.Needs, t)
	}
	m.Svcs = get("Services")
	if a := field(d, "Authorizer"); a != nil && !a.isNil() {
		m.Auth = a
	}
	if g := field(d, "GenesisHandler"); g != nil && !g.isNil() {
		m.Gen = g
	}
}

// methodFor resolves the concrete method called through an interface holding
// a value of type ct, together with wrappers.
func (c *Ctx) methodFor(ct types.Type, name string) *ssa.Function {
	ms := c.P.SSA.MethodSets.MethodSet(ct)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return c.P.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// handlers returns the handlers of a kind, optionally for one transition.
func (s *Sys) handlers(kind string) []*Handler {
	var out []*Handler
	for _, m := range s.Mods {
		for _, h := range m.H {
			if h.Kind == kind {
				out = append(out, h)
			}
		}
	}
	return out
}

func (s *Sys) handlersFor(kind, trans string) []*Handler {
	var out []*Handler
	for _, h := range s.handlers(kind) {
		if tname(h.Trans) == trans {
			out = append(out, h)
		}
	}
	return out
}

// reqTerm builds the request a handler receives: a struct whose Transition is
// an arbitrary message of the registered type and whose other fields are
// arbitrary.
func (c *Ctx) reqTerm(f *ssa.Function, trans types.Type) (*T, *T) {
	ps := f.Params
	pt := ps[len(ps)-1].Type()
	s, ok := pt.Underlying().(*types.Struct)
	if !ok {
		return mk("param", "tx", pt), nil
	}
	name := shortT(pt)
	var as []*T
	var msg *T
	for i := 0; i < s.NumFields(); i++ {
		fl := s.Field(i)
		name += ";" + fl.Name()
		if fl.Name() == "Transition" && trans != nil {
			msg = mk("param", "msg", trans)
			t := mk("iface", shortT(trans), fl.Type(), msg)
			t.X = trans
			as = append(as, t)
			continue
		}
		as = append(as, mk("param", "req."+fl.Name(), fl.Type()))
	}
	return mk("obj", name, pt, as...), msg
}

// runHandler analyses a registered handler for an arbitrary request.
func (c *Ctx) runHandler(h *Handler, cfg Cfg) ([]*Path, *T, *T) {
	req, msg := c.reqTerm(h.Fn, h.Trans)
	st := h.Mod.st.clone()
	st.events = nil
	st.flist = nil
	c.arbitraryState(st, h.Raw)
	if cfg.Given != nil {
		cfg.Given(c.P.engine(cfg), st, msg)
	}
	ps := c.runFrom(st, h.Fn, []*T{h.Raw, req}, cfg)
	return ps, req, msg
}

// setList makes a slice field of a message hold exactly these elements.
func setList(st *state, msg *T, name string, elems ...*T) {
	st.mem[mk("faddr", name, nil, stripPtr(msg))] = mk("slicelit", "", nil, elems...)
}

// runMethod analyses a method of a known value from the module's state.
func (c *Ctx) runMethod(m *Mod, val *T, name string, cfg Cfg) []*Path {
	ct, raw := boxed(val)
	if ct == nil {
		c.Fail("undecided:"+name, "-", "value %v has no known type", val)
		return nil
	}
	f := c.methodFor(ct, name)
	if f == nil || f.Blocks == nil {
		c.Fail("undecided:"+tname(ct)+"."+name, "-", "method %s of %s not found", name, tname(ct))
		return nil
	}
	st := m.st.clone()
	st.events = nil
	st.flist = nil
	c.arbitraryState(st, raw)
	e := c.P.engine(cfg)
	args := e.params(f)
	args[0] = raw
	return c.runFrom(st, f, args, cfg)
}
