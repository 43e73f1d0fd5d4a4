package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnRaw      = "(runtime/module.Descriptor).Raw"
	fnDefault  = "(runtime/module.GenesisHandler).Default"
	fnSvcStart = "(*runtime.ServiceGroup).Start"
	fnInitGen  = "(*runtime.Runtime).InitGenesis"
	fnImport   = "(*runtime.Runtime).Import"
)

// delivers: methods of the runtime which take users and a state transition.
func (c *Ctx) delivers() func(f *ssa.Function) bool {
	us, tr := c.P.named("runtime/authentication/user", "Users"), c.P.named("core/meta", "StateTransition")
	return func(f *ssa.Function) bool {
		if us == nil || tr == nil || !strings.HasPrefix(fname(f), "(*runtime.Runtime).") || len(f.Params) < 3 {
			return false
		}
		return types.Identical(f.Params[1].Type(), us) && types.Identical(f.Params[2].Type(), tr)
	}
}

// deliveredBy: the transition an event delivers through the runtime.
func deliveredBy(e *Event) (string, *T, *T) {
	if e.Kind != "call" || !strings.HasPrefix(e.Fn, "(*runtime.Runtime).") || !strings.Contains(e.Fn, "eliver") || len(e.Args) < 3 {
		return "", nil, nil
	}
	t, _ := boxed(e.Args[2])
	if t == nil {
		return "", nil, nil
	}
	return tname(t), deepStrip(e.Args[1]), e.Deep[2]
}

func c24(c *Ctx) {
	c.genesisRun()
	c.descriptorsStored()
	c.rawDescriptor()
	c.genesisContent()
}

func (c *Ctx) genesisRun() {
	f := c.method(rtPkg, "Runtime", "InitGenesis")
	if f == nil {
		return
	}
	isDel := c.delivers()
	cfg := Cfg{Pure: func(n string) bool { return n == fnRaw }, Opaque: func(n string) bool { return n == fnSvcStart }, OpaqueFn: isDel}
	rt := deepStrip(c.params(f)[0])
	mods := deepStrip(mkField(rt, "modules", nil))
	okAny, okMod := false, false
	for _, p := range c.run(f, cfg) {
		if !c.Check(p.Outcome == "return", "genesis-panics", fname(f), p.Pos, "genesis panics") {
			continue
		}
		var steps []*Event
		set := 0
		var setSeq int
		for _, e := range p.Events {
			if e.Kind == "call" && (strings.HasPrefix(e.Fn, "(*runtime.Runtime).") || e.Fn == fnDefault || e.Fn == fnSvcStart || isORMWrite(e.Fn)) {
				steps = append(steps, e)
			}
			if e.Kind == "store" {
				to := strip(e.Args[0])
				b, k := e.Args[1].boolVal()
				if c.Check(to.Op == "faddr" && to.S == "initialized" && k && b, "genesis-state", fname(f), e.Pos, "genesis sets %v to %v", to, e.Args[1]) {
					set++
					setSeq = e.Seq
				}
			}
		}
		was, wk := decideIn(p.facts, mkField(rt, "initialized", nil))
		facts, ok := p.success()
		c.Check(wk, "genesis-once", fname(f), p.Pos, "genesis does not ask whether the runtime is initialised")
		if wk && was {
			c.Check(!ok && len(steps) == 0 && set == 0, "genesis-once", fname(f), p.Pos, "an initialised runtime can be initialised again")
			continue
		}
		stage := 0
		var gens []*Event
		for i, e := range steps {
			fb := p.factsBefore(e.Seq)
			if i > 0 {
				c.Check(steps[i-1].okIn(fb), "genesis-stops", fname(f)+"→"+e.Fn, e.Pos, "%s runs although %s may have failed", e.Fn, steps[i-1].Fn)
			}
			switch {
			case e.Fn == fnDefault:
				c.Check(stage == 1, "genesis-order", fname(f)+"→"+e.Fn, e.Pos, "a module's genesis runs before the modules are described or after the services started")
				gens = append(gens, e)
			case e.Fn == fnSvcStart:
				c.Check(stage == 1, "genesis-order", fname(f)+"→"+e.Fn, e.Pos, "services start before the modules are described, or twice")
				c.Check(same(e.Args[len(e.Args)-1], mkField(rt, "store", nil)), "genesis-services", fname(f), e.Pos, "services get %v, not the store of the runtime", e.Args)
				stage = 2
				why := c.gensComplete(p, fb, mods, gens)
				c.Check(why == "", "genesis-order", fname(f)+"→"+e.Fn, e.Pos, "services start before genesis is complete: %s", why)
			default:
				tn, us, msg := deliveredBy(e)
				if !c.Check(stage == 0 && strings.HasSuffix(tn, "runtime/v1alpha1.CreateModuleDescriptors"), "genesis-describes", fname(f)+"→"+e.Fn, e.Pos, "genesis calls %s with %s at step %d", e.Fn, tn, i) {
					continue
				}
				stage = 1
				c.Check(us == deepStrip(mkField(rt, "user", nil)), "genesis-identity", fname(f), e.Pos, "the modules are described on behalf of %v", us)
				vals, done := seqItems(fb, field(msg, "Modules"), mods)
				good := done
				for i, v := range vals {
					good = good && v.Op == "call" && v.S == fnRaw && v.A[0] == deepStrip(mkElem(mods, i, nil))
				}
				idx, _ := elems(fb, mods)
				c.Check(good && len(vals) == len(idx), "genesis-describes", fname(f), e.Pos, "the modules described are %v", field(msg, "Modules"))
			}
		}
		if !ok {
			c.Check(p.failedStep() != nil, "genesis-fails-for-a-reason", fname(f), p.Pos, "genesis fails although nothing failed")
			// the runtime is not initialised unless every module's genesis succeeded
			if set > 0 {
				why := c.gensComplete(p, p.factsBefore(setSeq), mods, gens)
				c.Check(why == "" && stage >= 1, "genesis-initialised", fname(f), p.Pos, "the runtime counts as initialised although %s", why)
			}
			continue
		}
		okAny = true
		okMod = okMod || len(gens) > 0
		why := c.gensComplete(p, facts, mods, gens)
		c.Check(why == "", "genesis-complete", fname(f), p.Pos, "genesis succeeds although %s", why)
		c.Check(stage == 2, "genesis-complete", fname(f), p.Pos, "genesis succeeds without describing the modules or starting the services")
		for _, e := range steps {
			c.Check(e.okIn(facts), "genesis-complete", fname(f)+"→"+e.Fn, e.Pos, "genesis succeeds although %s may have failed", e.Fn)
		}
		c.Check(set == 1, "genesis-initialised", fname(f), p.Pos, "genesis succeeds and marks the runtime as initialised %d times", set)
	}
	c.Check(okAny && okMod, "genesis-possible", fname(f), c.P.pos(f.Pos()), "genesis can not succeed")
	// the mark is set nowhere else
	n := c.P.named(rtPkg, "Runtime")
	roots := map[*ssa.Function]bool{f: true}
	for _, g := range c.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || n == nil || !isPtrTo(fa.X.Type(), n) || n.Underlying().(*types.Struct).Field(fa.Field).Name() != "initialized" {
					continue
				}
				bad := c.reachedOnlyFrom(g, roots)
				c.Check(bad == nil, "genesis-mark", fname(g), c.P.pos(st.Pos()), "%s changes whether the runtime is initialised", fname(g))
			}
		}
	}
}

// gensComplete: the genesis of every module which has one ran, in order.
func (c *Ctx) gensComplete(p *Path, facts map[*T]bool, mods *T, gens []*Event) string {
	idx, done := elems(facts, mods)
	if !done {
		return "not every module was looked at"
	}
	k := 0
	var ord []*T
	for _, i := range idx {
		g := mkField(mkElem(mods, i, nil), "GenesisHandler", nil)
		n, known := isNilIn(facts, deepStrip(g))
		if known && n {
			continue
		}
		if k >= len(gens) || !same(gens[k].Recv, g) {
			return "a module's genesis did not run, or not in order"
		}
		if !gens[k].okIn(facts) {
			return "a module's genesis may have failed"
		}
		ord = append(ord, i)
		k++
	}
	if k != len(gens) {
		return "a module's genesis ran twice"
	}
	_ = ord
	return ""
}

// descriptorsStored: the handler stores what it is given.
func (c *Ctx) descriptorsStored() {
	hs := c.system().handlersFor("exec", "core/runtime/v1alpha1.CreateModuleDescriptors")
	c.Check(len(hs) == 1, "descriptors-handler", "CreateModuleDescriptors", "-", "%d handlers store the module descriptors", len(hs))
	for _, h := range hs {
		ps, _, msg := c.runHandler(h, Cfg{})
		okAny := false
		for _, p := range ps {
			facts, ok := p.success()
			ws := objWrites(p)
			for _, w := range ws {
				c.Check(w.Fn == fnClientCr && strings.HasSuffix(w.Type, "runtime/v1alpha1.ModuleDescriptors") && same(field(w.Obj, "Modules"), mkField(msg, "Modules", nil)), "descriptors-stored", fname(h.Fn), w.Pos, "%v is stored instead of the modules described", w.Obj)
				if ok {
					c.Check(w.okIn(facts), "descriptors-stored", fname(h.Fn), w.Pos, "success although the descriptors may not have been stored")
				}
			}
			if ok {
				okAny = true
				c.Check(len(ws) == 1, "descriptors-stored", fname(h.Fn), p.Pos, "success with %d objects written", len(ws))
			}
		}
		c.Check(okAny, "descriptors-stored", fname(h.Fn), c.P.pos(h.Fn.Pos()), "descriptors can not be stored")
	}
}

// rawDescriptor: the description of a module says what the module declares.
func (c *Ctx) rawDescriptor() {
	f := c.method("runtime/module", "Descriptor", "Raw")
	if f == nil {
		return
	}
	d := c.params(f)[0]
	fds := "google.golang.org/protobuf/reflect/protoreflect.FileDescriptor"
	deps := func(g *ssa.Function) bool {
		return g != f && len(g.Params) == 1 && shortT(g.Params[0].Type()) == fds && g.Signature.Results().Len() == 1
	}
	type lst struct {
		from, of, to string
		schema       bool
		full         bool
	}
	ls := []lst{{"StateObjects", "StateObject", "StateObjects", true, true}, {"StateTransitionExecutionHandlers", "StateTransition", "StateTransitions", false, true}, {"Needs", "", "RequiredResources", false, false}}
	okAny := map[string]bool{}
	pure := map[string]bool{}
	for _, g := range c.P.Funcs {
		if deps(g) && strings.HasPrefix(fnPkgPath(g), modPath+"/runtime/module") {
			pure[fname(g)] = true
		}
	}
	for _, p := range c.run(f, Cfg{Pure: func(n string) bool { return pure[n] }}) {
		if !c.Check(p.Outcome == "return", "raw", fname(f), p.Pos, "describing a module panics") {
			continue
		}
		r := p.RetDeep[0]
		c.Check(same(field(r, "Name"), mkField(d, "Name", nil)), "raw-name", fname(f), p.Pos, "the module is described as %v", field(r, "Name"))
		for _, l := range ls {
			col := deepStrip(mkField(d, l.from, nil))
			vals, done := seqItems(p.facts, field(r, l.to), col)
			idx, _ := elems(p.facts, col)
			if !c.Check(done && len(vals) == len(idx), "raw-"+l.to, fname(f), p.Pos, "the %s described are not those declared: %v", l.to, field(r, l.to)) {
				continue
			}
			for i, v := range vals {
				okAny[l.to] = true
				el := mkElem(col, i, nil)
				if l.of != "" {
					el = mkField(el, l.of, nil)
				}
				ad := "ApiDefinition"
				if l.of == "" {
					ad = "Resource"
				}
				a := deepStrip(field(v, ad))
				good := a != nil && a.Op == "call" && strings.HasSuffix(a.S, ".APIDefinition") && a.A[0] == deepStrip(el)
				c.Check(good, "raw-"+l.to, fname(f), p.Pos, "an element of %s is described by %v", l.to, a)
				if l.full {
					nm := field(v, "ProtobufFullname")
					md := findTerm(nm, func(t *T) bool {
						return t.Op == "call" && strings.HasSuffix(t.S, ").ProtoReflect") && t.A[0] == deepStrip(el)
					})
					fn := findTerm(nm, func(t *T) bool { return t.Op == "call" && strings.HasSuffix(t.S, ").FullName") })
					c.Check(md != nil && fn != nil, "raw-"+l.to, fname(f), p.Pos, "the protobuf name described is %v", nm)
					pd := field(v, "ProtoDependencies")
					md = findTerm(pd, func(t *T) bool {
						return t.Op == "call" && strings.HasSuffix(t.S, ").ProtoReflect") && t.A[0] == deepStrip(el)
					})
					c.Check(md != nil, "raw-"+l.to, fname(f), p.Pos, "the protobuf files described are %v", pd)
				}
				if l.schema {
					c.Check(same(field(v, "SchemaDefinition"), mkField(mkElem(col, i, nil), "SchemaDefinition", nil)), "raw-schema", fname(f), p.Pos, "the schema described is %v", field(v, "SchemaDefinition"))
				}
			}
		}
	}
	for _, l := range ls {
		c.Check(okAny[l.to], "raw-possible", fname(f)+" "+l.to, c.P.pos(f.Pos()), "no %s can be described", l.to)
	}
}

// genesisContent: every singleton somebody depends on exists after genesis.
func (c *Ctx) genesisContent() {
	s := c.system()
	sing := c.singletons()
	owner := map[string]*Mod{}
	for _, m := range s.Mods {
		for _, o := range m.Objs {
			owner[tname(o.Typ)] = m
		}
	}
	created := map[string]string{}
	for _, m := range s.Mods {
		if m.Gen == nil {
			continue
		}
		every := map[string]bool{}
		first := true
		for _, p := range c.runMethod(m, m.Gen, "Default", Cfg{}) {
			facts, ok := p.success()
			ws := objWrites(p)
			for i, w := range ws {
				c.Check(w.Fn == fnClientCr, "genesis-creates", m.Name, w.Pos, "genesis of %s changes state through %s", m.Name, w.Fn)
				c.Check(owner[w.Type] == m, "genesis-own-objects", m.Name, w.Pos, "genesis of %s writes %s, which is not its own", m.Name, w.Type)
				if i > 0 {
					c.Check(ws[i-1].okIn(p.factsBefore(w.Seq)), "genesis-module-stops", m.Name, w.Pos, "genesis of %s goes on after a failure", m.Name)
				}
			}
			if !ok {
				c.Check(p.Outcome != "return" || p.failedStep() != nil, "genesis-module-fails", m.Name, p.Pos, "genesis of %s fails although no step failed", m.Name)
				continue
			}
			n := map[string]int{}
			for _, w := range ws {
				n[w.Type]++
				c.Check(w.okIn(facts), "genesis-module-ok", m.Name+" "+w.Type, w.Pos, "genesis of %s succeeds although %s may not have been created", m.Name, w.Type)
			}
			for _, e := range p.calls(fnClientDlv) {
				c.Check(e.okIn(facts), "genesis-module-ok", m.Name, e.Pos, "genesis of %s succeeds although a transition it delivers may have failed", m.Name)
			}
			for t, k := range n {
				if sing[t] {
					c.Check(k == 1, "genesis-singleton-once", t, p.Pos, "the single %s is created %d times", t, k)
				}
			}
			for t := range every {
				if n[t] == 0 {
					delete(every, t)
				}
			}
			if first {
				for t := range n {
					every[t] = true
				}
			}
			first = false
		}
		c.Check(!first, "genesis-module-possible", m.Name, "-", "genesis of %s never succeeds", m.Name)
		for t := range every {
			c.Check(created[t] == "", "genesis-singleton-once", t, "-", "%s is created by the genesis of %s and of %s", t, created[t], m.Name)
			created[t] = m.Name
		}
	}
	// what is read or updated unconditionally
	need := func(who string, ps []*Path) {
		for _, p := range ps {
			for _, e := range p.callsAny(fnClientGet, "(*runtime.Runtime).Get", "(runtime/orm.Store).Get") {
				k := len(e.Deep) - 2
				if e.Fn == fnClientGet {
					k = 0
				}
				if k < 0 || !isSingleton(e.Deep[k]) {
					continue
				}
				_, into := boxed(e.Args[k+1])
				if into == nil || into.Typ == nil {
					continue
				}
				t := tname(into.Typ)
				c.Check(created[t] != "" || t == "core/runtime/v1alpha1.ModuleDescriptors", "genesis-creates-singletons", who+" "+t, e.Pos, "%s reads the single %s, which no genesis creates", who, t)
			}
			for _, w := range objWrites(p) {
				if w.Fn == fnClientUp && sing[w.Type] {
					c.Check(created[w.Type] != "", "genesis-creates-singletons", who+" "+w.Type, w.Pos, "%s updates the single %s, which no genesis creates", who, w.Type)
				}
				if w.Fn == fnClientCr && sing[w.Type] {
					c.Check(created[w.Type] == "" && w.Type == "core/runtime/v1alpha1.ModuleDescriptors", "genesis-creates-singletons", who+" "+w.Type, w.Pos, "%s creates the single %s, which exists already", who, w.Type)
				}
			}
		}
	}
	for _, m := range s.Mods {
		for _, h := range m.H {
			ps, _, _ := c.runHandler(h, c.wiringCfg(h))
			need(fname(h.Fn), ps)
		}
		if m.Auth != nil {
			need(m.Name+" authorizer", c.runMethod(m, m.Auth, "Authorize", Cfg{}))
		}
	}
	for _, t := range c.abciApps() {
		if f := unwrap(c.P, c.methodFor(t, "EndBlock")); f != nil {
			need(fname(f), c.run(f, Cfg{Opaque: func(n string) bool { return strings.HasPrefix(n, "(*runtime.Runtime).") }}))
		}
	}
	c.Check(len(created) > 0, "genesis-content", "modules", "-", "no genesis creates anything")
}

// singletons: the object types declared with a singleton schema.
func (c *Ctx) singletons() map[string]bool {
	out := map[string]bool{}
	for _, m := range c.system().Mods {
		for _, o := range m.Objs {
			g := deepStrip(o.Sch)
			for g != nil && g.Op == "deref" {
				g = g.A[0]
			}
			if g == nil || g.Op != "gval" && g.Op != "global" {
				continue
			}
			i := strings.LastIndex(g.S, ".")
			for _, f := range c.initOf(modPath + "/" + g.S[:i]) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						gl, ok := st.Addr.(*ssa.Global)
						if !ok || gl.Name() != g.S[i+1:] {
							continue
						}
						if setsTrue(st.Val, "Singleton") {
							out[tname(o.Typ)] = true
						}
					}
				}
			}
		}
	}
	return out
}

// setsTrue: the field of the freshly allocated struct is initialised to true.
func setsTrue(v ssa.Value, fld string) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		s, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if !ok || s.Field(fa.Field).Name() != fld {
			continue
		}
		for _, u := range *fa.Referrers() {
			if st, ok := u.(*ssa.Store); ok {
				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- C28

const abciPkg = "core/abci/v1alpha1."

func c28(c *Ctx) {
	c.blockEntry()
	c.blockHandlers()
}

// lifecycle: the effects of an entry point, in order, and what it checks.
func (c *Ctx) blockEntry() {
	isRt := func(n string) bool { return strings.HasPrefix(n, "(*runtime.Runtime).") }
	for _, t := range c.abciApps() {
		for _, n := range []string{"InitChain", "BeginBlock", "EndBlock"} {
			f := unwrap(c.P, c.methodFor(t, n))
			if f == nil {
				continue
			}
			a := c.params(f)
			self, blk := a[0], a[1]
			okAny := map[string]bool{}
			for _, p := range c.run(f, Cfg{Opaque: isRt}) {
				var steps []*Event
				for _, e := range p.Events {
					if e.Kind == "call" && (isRt(e.Fn) || isORMWrite(e.Fn)) && !strings.HasSuffix(e.Fn, ").EnableAuthorization") {
						steps = append(steps, e)
					}
				}
				for i := 1; i < len(steps); i++ {
					c.Check(steps[i-1].okIn(p.factsBefore(steps[i].Seq)), "block-stops", fname(f)+"→"+steps[i].Fn, steps[i].Pos, "%s goes on although %s may have failed", fname(f), steps[i-1].Fn)
				}
				if p.Outcome != "return" {
					c.Check(p.failedStep() != nil || c.unsupportedKey(p), "block-panics-for-a-reason", fname(f), p.Pos, "%s stops the process although nothing failed", fname(f))
					continue
				}
				for _, e := range steps {
					c.Check(e.okIn(p.facts), "block-failure-stops", fname(f)+"→"+e.Fn, p.Pos, "%s answers although %s may have failed", fname(f), e.Fn)
				}
				var dl []*Event
				for _, e := range steps {
					if tn, _, _ := deliveredBy(e); tn != "" {
						dl = append(dl, e)
					}
				}
				if !c.Check(len(dl) == 1 && same(dl[0].Args[1], mkField(self, "user", nil)), "block-delivers", fname(f), p.Pos, "%s delivers %d transitions", fname(f), len(dl)) {
					continue
				}
				tn, _, msg := deliveredBy(dl[0])
				r := p.RetDeep[0]
				switch n {
				case "InitChain":
					c.Check(tn == abciPkg+"MsgSetInitChain" && same(field(field(msg, "InitChainInfo"), "ChainId"), mkField(blk, "ChainId", nil)), "init-chain-id", fname(f), dl[0].Pos, "initialising the chain delivers %v", msg)
					c.Check(same(field(r, "Validators"), mkField(blk, "Validators", nil)), "init-validators", fname(f), p.Pos, "the validators answered are %v", field(r, "Validators"))
					empty, k := lenZeroOf(p.facts, deepStrip(mkField(blk, "AppStateBytes", nil)))
					if nl, kn := isNilIn(p.facts, deepStrip(mkField(blk, "AppStateBytes", nil))); !k && kn && nl {
						empty, k = true, true
					}
					ng, ni := 0, 0
					for _, e := range steps {
						if e.Fn == fnInitGen {
							ng++
							c.Check(e.Seq < dl[0].Seq, "init-order", fname(f), e.Pos, "genesis runs after the chain information is set")
						}
						if e.Fn == fnImport {
							ni++
							c.Check(e.Seq < dl[0].Seq && same(e.Args[1], mkField(blk, "AppStateBytes", nil)), "init-import", fname(f), e.Pos, "the state imported is %v", e.Args[1])
						}
					}
					c.Check(k && (empty && ng == 1 && ni == 0 || !empty && ng == 0 && ni == 1), "init-state", fname(f), p.Pos, "the chain is initialised with %d default states and %d imported ones", ng, ni)
					if k && empty {
						okAny["default"] = true
					} else {
						okAny["import"] = true
					}
				case "BeginBlock":
					good := false
					bb := deepStrip(field(msg, "BeginBlock"))
					for _, e := range p.calls("google.golang.org/protobuf/proto.Unmarshal") {
						if bb != evOut(e, 1) || !e.okIn(p.facts) {
							continue
						}
						for _, m := range p.callsLike(func(n string) bool { return strings.HasSuffix(n, "proto.Marshal") }) {
							if same(e.Args[0], m.Res[0]) && m.okIn(p.facts) {
								ct, in := boxed(m.Args[0])
								d := deepStrip(m.Deep[0])
								good = good || ct != nil && (same(d, blk) || wholeOf(d, blk)) || in != nil && same(in, blk)
							}
						}
					}
					c.Check(tn == abciPkg+"MsgSetBeginBlockState" && good, "begin-block", fname(f), dl[0].Pos, "beginning a block delivers %v, not what was received", msg)
					okAny["default"], okAny["import"] = true, true
				case "EndBlock":
					c.Check(tn == abciPkg+"MsgSetEndBlockState" && same(field(field(msg, "EndBlock"), "Height"), mkField(blk, "Height", nil)), "end-block", fname(f), dl[0].Pos, "ending a block delivers %v", msg)
					var got *Event
					for _, e := range steps {
						if strings.HasSuffix(e.Fn, ").Get") && e.Seq > dl[0].Seq && isSingleton(e.Deep[1]) {
							if _, into := boxed(e.Args[2]); into != nil && into.Typ != nil && tname(into.Typ) == abciPkg+"ValidatorUpdates" {
								got = e
							}
						}
					}
					if !c.Check(got != nil, "end-block-updates", fname(f), p.Pos, "ending a block does not read the validator updates") {
						continue
					}
					col := deepStrip(mkField(evOut(got, 2), "ValidatorUpdates", nil))
					vals, done := seqItems(p.facts, field(r, "ValidatorUpdates"), col)
					idx, _ := elems(p.facts, col)
					if !c.Check(done && len(vals) == len(idx), "end-block-updates", fname(f), p.Pos, "the validator updates answered are %v", field(r, "ValidatorUpdates")) {
						continue
					}
					for i, v := range vals {
						okAny["import"] = true
						c.Check(c.legacyUpdate(p.facts, v, mkElem(col, i, nil)), "end-block-updates", fname(f), p.Pos, "a validator update is answered as %v", v)
					}
					okAny["default"] = true
				}
			}
			c.Check(okAny["default"] && okAny["import"], "block-possible", fname(f), c.P.pos(f.Pos()), "%s can not succeed", fname(f))
		}
	}
	if f := c.method("core/abci/tendermint/abci", "ValidatorUpdate", "ToLegacy"); f != nil {
		x := c.params(f)[0]
		n := 0
		for _, p := range c.run(f, Cfg{}) {
			if p.Outcome == "return" {
				n++
				c.Check(c.legacyUpdate(p.facts, deepStrip(p.RetDeep[0]), x), "validator-update", fname(f), p.Pos, "a validator update is converted to %v", p.RetDeep[0])
			}
		}
		c.Check(n >= 2, "validator-update", fname(f), c.P.pos(f.Pos()), "not every kind of key can be converted")
	}
}

// unsupportedKey: the path ends because of a key that is of no supported kind.
func (c *Ctx) unsupportedKey(p *Path) bool {
	n := 0
	for fa, v := range p.facts {
		if !v && strings.HasPrefix(fa.Op, "isa") && strings.Contains(fa.String(), "PublicKey_") {
			n++
		}
	}
	return n >= 2
}

// wholeOf: a struct value all of whose fields are the fields of x.
func wholeOf(d, x *T) bool {
	if same(d, x) {
		return true
	}
	if d == nil || d.Op != "obj" {
		return false
	}
	for i, n := range strings.Split(d.S, ";")[1:] {
		if !wholeOf(d.A[i], deepStrip(mkField(x, n, nil))) {
			return false
		}
	}
	return true
}

// legacyUpdate: v is the update x with the same key and power.
func (c *Ctx) legacyUpdate(facts map[*T]bool, v, x *T) bool {
	if !same(field(v, "Power"), mkField(x, "Power", nil)) {
		return false
	}
	sum := deepStrip(mkField(mkField(x, "PubKey", nil), "Sum", nil))
	for fa, ok := range facts {
		if !ok || !strings.HasPrefix(fa.Op, "isa") || deepStrip(fa.A[0]) != sum {
			continue
		}
		for _, k := range []string{"Ed25519", "Secp256K1"} {
			if !strings.HasSuffix(fa.S, "PublicKey_"+k) && !strings.HasSuffix(fa.Op, "PublicKey_"+k) {
				continue
			}
			s := field(field(v, "PubKey"), "Sum")
			return strings.HasSuffix(strings.TrimPrefix(objType(deepStrip(s)), "*"), "PublicKey_"+k) && same(field(s, k), mkField(sum, k, nil))
		}
	}
	return false
}

// blockHandlers: what the chain module stores for each lifecycle transition.
func (c *Ctx) blockHandlers() {
	s := c.system()
	stages := map[int64]string{}
	if n := c.P.named("core/abci/v1alpha1", "ABCIStage"); n != nil {
		for k, v := range c.P.constsOf(n) {
			stages[v] = strings.TrimPrefix(k, "ABCIStage_")
		}
	}
	type w struct{ obj, fld, from string }
	tab := map[string]struct {
		stage string
		ws    []w
	}{
		"MsgSetInitChain":        {"InitChain", []w{{"InitChainInfo", "ChainId", "InitChainInfo.ChainId"}}},
		"MsgSetBeginBlockState":  {"BeginBlock", []w{{"BeginBlockState", "BeginBlock", "BeginBlock"}, {"CurrentBlock", "BlockNumber", "BeginBlock.Header.Height"}}},
		"MsgSetEndBlockState":    {"EndBlock", []w{{"EndBlockState", "EndBlock", "EndBlock"}}},
		"MsgSetDeliverTxState":   {"DeliverTx", []w{{"DeliverTxState", "DeliverTx", "DeliverTx"}}},
		"MsgSetCheckTxState":     {"CheckTx", []w{{"CheckTxState", "CheckTx", "CheckTx"}}},
		"MsgSetValidatorUpdates": {"", []w{{"ValidatorUpdates", "ValidatorUpdates", "ValidatorUpdates"}}},
	}
	owned := map[string]bool{"Stage": true}
	mine := map[*ssa.Function]bool{}
	for _, tn := range []string{"MsgSetInitChain", "MsgSetBeginBlockState", "MsgSetEndBlockState", "MsgSetDeliverTxState", "MsgSetCheckTxState", "MsgSetValidatorUpdates"} {
		want := tab[tn]
		hs := s.handlersFor("exec", abciPkg+tn)
		c.Check(len(hs) == 1, "block-handler", tn, "-", "%d handlers execute %s", len(hs), tn)
		for _, x := range want.ws {
			owned[x.obj] = true
		}
		for _, h := range hs {
			mine[h.Fn] = true
			ps, _, msg := c.runHandler(h, Cfg{})
			okAny := false
			for _, p := range ps {
				facts, ok := p.success()
				if p.Outcome != "return" && tn != "MsgSetCheckTxState" && !c.infeasiblePanic(p) {
					c.Check(false, "block-handler-panics", tn, p.Pos, "executing %s panics", tn)
				}
				ws := objWrites(p)
				for i, x := range ws {
					if i > 0 {
						c.Check(ws[i-1].okIn(p.factsBefore(x.Seq)), "block-handler-stops", tn, x.Pos, "executing %s goes on after a failure", tn)
					}
					if tn == "MsgSetValidatorUpdates" {
						c.Check(c.stageKnown(p, x.Seq, stages, "InitChain", "EndBlock"), "validator-updates-stage", tn, x.Pos, "validator updates are accepted in other stages than the initialisation of the chain and the end of a block")
					}
				}
				if !ok {
					continue
				}
				okAny = true
				seen := map[string]int{}
				for _, x := range ws {
					o := x.Type[strings.LastIndex(x.Type, ".")+1:]
					seen[o]++
					c.Check(x.Fn == fnClientUp && strings.HasPrefix(x.Type, abciPkg) && x.okIn(facts), "block-handler-writes", tn+" "+o, x.Pos, "executing %s writes %s through %s, or succeeds although that failed", tn, x.Type, x.Fn)
					if o == "Stage" {
						n, k := deepStrip(field(x.Obj, "Stage")).intVal()
						good := k && stages[n] == want.stage
						if tn == "MsgSetCheckTxState" && k {
							ty := deepStrip(mkField(mkField(msg, "CheckTx", nil), "Type", nil))
							for fa, v := range facts {
								if v && fa.Op == "eq" && (deepStrip(fa.A[0]) == ty || deepStrip(fa.A[1]) == ty) {
									q := fa.A[0]
									if deepStrip(q) == ty {
										q = fa.A[1]
									}
									if tv, ok := q.intVal(); ok {
										good = stages[n] == map[int64]string{0: "CheckTx", 1: "ReCheckTx"}[tv]
									}
								}
							}
						}
						c.Check(good, "block-stage", tn, x.Pos, "executing %s sets the stage to %v", tn, field(x.Obj, "Stage"))
						continue
					}
					known := false
					for _, y := range want.ws {
						if y.obj != o {
							continue
						}
						known = true
						src := msg
						for _, n := range strings.Split(y.from, ".") {
							src = mkField(src, n, nil)
						}
						v := deepStrip(field(x.Obj, y.fld))
						for v.Op == "conv" {
							v = deepStrip(v.A[0])
						}
						c.Check(v == deepStrip(src), "block-stored", tn+" "+o, x.Pos, "executing %s stores %v as %s of %s", tn, v, y.fld, o)
					}
					c.Check(known, "block-handler-writes", tn+" "+o, x.Pos, "executing %s also writes %s", tn, x.Type)
				}
				for _, y := range want.ws {
					c.Check(seen[y.obj] == 1, "block-stored", tn+" "+y.obj, p.Pos, "executing %s succeeds with %s written %d times", tn, y.obj, seen[y.obj])
				}
				if want.stage != "" {
					c.Check(seen["Stage"] == 1, "block-stage", tn, p.Pos, "executing %s succeeds without setting the stage once", tn)
				}
			}
			c.Check(okAny, "block-handler", tn, c.P.pos(h.Fn.Pos()), "%s can not be executed", tn)
		}
	}
	// the chain starts in the stage of its initialisation
	for _, m := range s.Mods {
		if m.Gen == nil {
			continue
		}
		for _, p := range c.runMethod(m, m.Gen, "Default", Cfg{}) {
			for _, w := range objWrites(p) {
				if w.Type == abciPkg+"Stage" {
					n, k := deepStrip(field(w.Obj, "Stage")).intVal()
					c.Check(k && stages[n] == "InitChain", "block-stage", "genesis", w.Pos, "the chain starts in the stage %v", field(w.Obj, "Stage"))
				}
			}
		}
	}
	// nobody else writes them
	for _, m := range s.Mods {
		for _, h := range m.H {
			if mine[h.Fn] {
				continue
			}
			ps, _, _ := c.runHandler(h, c.wiringCfg(h))
			for _, p := range ps {
				for _, x := range objWrites(p) {
					if strings.HasPrefix(x.Type, abciPkg) && owned[strings.TrimPrefix(x.Type, abciPkg)] {
						c.Check(false, "block-owner", fname(h.Fn), x.Pos, "%s writes %s", fname(h.Fn), x.Type)
					}
				}
			}
		}
	}
}

// stageKnown: the stage read is known to be one of the named.
func (c *Ctx) stageKnown(p *Path, seq int, stages map[int64]string, names ...string) bool {
	fb := p.factsBefore(seq)
	for _, e := range fetched(p, fb, abciPkg+"Stage") {
		if e.Seq > seq || !isSingleton(e.Deep[0]) {
			continue
		}
		st := deepStrip(mkField(evOut(e, 1), "Stage", nil))
		for n, nm := range stages {
			for _, w := range names {
				if nm == w && hasEq(fb, st, mkInt(n)) {
					return true
				}
			}
		}
	}
	return false
}
