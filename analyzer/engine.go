package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is a path-sensitive, interprocedural abstract interpreter over
// SSA. The abstract value of an SSA register is a provenance term (term.go);
// the abstract state is the set of branch facts established so far plus the
// ordered list of calls ("events") that the path performs on the interfaces
// of interest. Branches whose condition is decided by the facts follow one
// side; the others split the state. Loops over collections of unknown size
// are analysed for 0, 1 and 2 iterations with distinct element terms. No
// solver is involved.

type Fact struct {
	Atom *T
	Val  bool
	Seq  int
	Pos  string
}

type Event struct {
	Seq   int
	Kind  string // call, go, store, send, recv, typeassert
	Fn    string // short full name of the callee (or "dyn")
	Recv  *T
	Args  []*T
	Deep  []*T // snapshots of the arguments at the time of the call
	DRecv *T
	Res   []*T
	Pos   string
	Stack []string
	Defer bool
	CallI *ssa.CallCommon
}

type Path struct {
	Outcome string // return, panic, exit
	Ret     []*T
	RetDeep []*T
	Events  []*Event
	Facts   []Fact
	facts   map[*T]bool
	Pos     string
	st      *state
}

type deferred struct {
	call *ssa.Defer
	fn   *T
	args []*T
}

type frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]*T
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	forks  map[*ssa.If]int // in the current run of the innermost loop
	total  map[*ssa.If]int
	visits map[*ssa.BasicBlock]int
	known  map[*ssa.BasicBlock]bool // the current iteration of the loop was certain
	steps  map[*ssa.BasicBlock]map[*ssa.Phi]inStep
	defers []deferred
	ret    ssa.Value // register in the caller that receives the result
	inDefr bool      // a deferred call: discard the result
	commit *T        // a read-write transaction to commit when the result is nil
	in     *ssa.Call
}

func (f *frame) clone() *frame {
	n := *f
	n.regs = make(map[ssa.Value]*T, len(f.regs))
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.forks = make(map[*ssa.If]int, len(f.forks))
	for k, v := range f.forks {
		n.forks[k] = v
	}
	n.visits = cpm(f.visits)
	n.known = cpm(f.known)
	n.total = cpm(f.total)
	n.steps = cpm(f.steps)
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

type state struct {
	mem    map[*T]*T // address term -> value
	base   map[*T]*T // alloc -> initial content (absent: zero value)
	lens   map[*T]*T // made slices -> length
	iters  map[*T]int
	facts  map[*T]bool
	flist  []Fact
	events []*Event
	frames []*frame
	nalloc int
	seq    int
	result []*T
}

func newState() *state {
	return &state{mem: map[*T]*T{}, base: map[*T]*T{}, lens: map[*T]*T{}, iters: map[*T]int{}, facts: map[*T]bool{}}
}

func cpm[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *state) clone() *state {
	n := *s
	n.mem, n.base, n.lens, n.iters, n.facts = cpm(s.mem), cpm(s.base), cpm(s.lens), cpm(s.iters), cpm(s.facts)
	n.flist = append([]Fact(nil), s.flist...)
	n.events = append([]*Event(nil), s.events...)
	n.frames = make([]*frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	return &n
}

type Cfg struct {
	// Opaque: do not look inside this repository function, record a call event.
	Opaque func(name string) bool
	// Pure: the call is a deterministic function of its arguments without
	// effects; it becomes a term.
	Pure func(name string) bool
	// Impure: the call is recorded although its function is pure by default
	Impure func(name string) bool
	// NoHavoc: the call does not modify what its pointer arguments refer to
	ReadOnly func(name string) bool
	MaxDepth int
	LoopK    int
	MaxPaths int
	NoDevirt bool
	// Inline restricts inlining: nil means every repository function
	Inline func(f *ssa.Function) bool
	// OpaqueFn: like Opaque, by function
	OpaqueFn func(f *ssa.Function) bool
	// Given adds assumptions about the request a handler is run with.
	Given func(e *Engine, st *state, msg *T)
	// Generic: analyse loops of unknown length for one arbitrary iteration
	// (the counter and flags have arbitrary values) instead of a first and a
	// later one.
	Generic bool
	// SkipTables: do not follow the stores filling arrays of more elements
	// (whose contents are then unknown), such as embedded descriptors.
	SkipTables int64
}

type Engine struct {
	P       *Prog
	Cfg     Cfg
	Paths   []*Path
	Pruned  int
	Over    bool
	Visited map[*ssa.Function]bool
	steps   int
	Unknown map[string]bool
	// noStep: counters that do not run in step with the loop index
	noStep  map[*ssa.Phi]bool
	restart bool
}

// inStep: a counter equals ph + diff at the loop head.
type inStep struct {
	ph   *ssa.Phi
	diff int64
}

// loopK is the number of iterations of a loop that are told apart; the last of
// them stands for all later ones. The thorough tier uses one more.
var loopK = 2

func (p *Prog) engine(c Cfg) *Engine {
	if c.MaxDepth == 0 {
		c.MaxDepth = 24
	}
	if c.LoopK == 0 {
		c.LoopK = loopK
	}
	if c.MaxPaths == 0 {
		c.MaxPaths = 60000
	}
	return &Engine{P: p, Cfg: c, Visited: map[*ssa.Function]bool{}, Unknown: map[string]bool{}, noStep: map[*ssa.Phi]bool{}}
}

// objName is a type's name in "obj" terms, where field names follow after
// semicolons.
func objName(t types.Type) string { return strings.ReplaceAll(shortT(t), ";", ",") }

func shortT(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
	})
}

// fname gives the canonical short name of a function.
func fname(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			return shortName(fo.FullName())
		}
	}
	return shortName(f.String())
}

// params creates the parameter terms of a root function.
func (e *Engine) params(f *ssa.Function) []*T {
	var a []*T
	for i, p := range f.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		t := mk("param", n, p.Type())
		a = append(a, t)
	}
	return a
}

// Run analyses f from the given state and arguments.
func (e *Engine) Run(st *state, f *ssa.Function, args []*T) []*Path {
	return e.RunClosure(st, f, args, nil)
}

// RunClosure analyses a closure with the given captured values.
func (e *Engine) RunClosure(st *state, f *ssa.Function, args, free []*T) []*Path {
	st.frames = nil
	for {
		e.restart = false
		ps := e.runOnce(st.clone(), f, args, free)
		if !e.restart {
			return ps
		}
	}
}

func (e *Engine) runOnce(st *state, f *ssa.Function, args, free []*T) []*Path {
	e.Paths = nil
	e.Pruned = 0
	e.push(st, f, args, free, nil)
	work := []*state{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		more := e.exec(s)
		work = append(work, more...)
		if e.restart {
			break
		}
		if len(e.Paths) > e.Cfg.MaxPaths || e.steps > 40000000 {
			e.Over = true
			break
		}
	}
	return e.Paths
}

// RunFn analyses a function with symbolic parameters from the empty state.
func (e *Engine) RunFn(f *ssa.Function) []*Path {
	return e.Run(newState(), f, e.params(f))
}

func (e *Engine) push(st *state, f *ssa.Function, args []*T, free []*T, ret ssa.Value) *frame {
	e.Visited[f] = true
	fr := &frame{fn: f, regs: map[ssa.Value]*T{}, forks: map[*ssa.If]int{}, visits: map[*ssa.BasicBlock]int{}, known: map[*ssa.BasicBlock]bool{}, total: map[*ssa.If]int{}, ret: ret}
	for i, p := range f.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		} else {
			fr.regs[p] = mk("param", f.String()+"."+p.Name(), p.Type())
		}
	}
	for i, v := range f.FreeVars {
		if i < len(free) {
			fr.regs[v] = free[i]
		} else {
			fr.regs[v] = mk("param", "free."+v.Name(), v.Type())
		}
	}
	fr.block = f.Blocks[0]
	st.frames = append(st.frames, fr)
	return fr
}

func (e *Engine) finish(st *state, outcome string, ret []*T, pos string) {
	p := &Path{Outcome: outcome, Ret: ret, Events: st.events, Facts: st.flist, facts: st.facts, Pos: pos, st: st}
	for _, r := range ret {
		p.RetDeep = append(p.RetDeep, e.deep(st, r))
	}
	e.Paths = append(e.Paths, p)
}

// exec runs a state until it ends or splits; returns the states to continue.
func (e *Engine) exec(st *state) []*state {
	for {
		e.steps++
		if e.steps > 40000000 {
			e.Over = true
			return nil
		}
		fr := st.frames[len(st.frames)-1]
		if fr.pc >= len(fr.block.Instrs) {
			panic("fell off block in " + fr.fn.String())
		}
		in := fr.block.Instrs[fr.pc]
		fr.pc++
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			// evaluate all phis of the block simultaneously
			idx := -1
			for i, p := range fr.block.Preds {
				if p == fr.prev {
					idx = i
				}
			}
			vals := map[*ssa.Phi]*T{}
			for _, i2 := range fr.block.Instrs {
				ph, ok := i2.(*ssa.Phi)
				if !ok {
					break
				}
				vals[ph] = e.val(st, fr, ph.Edges[idx])
			}
			e.widen(st, fr, vals)
			for ph, v := range vals {
				fr.regs[ph] = v
			}
			for fr.pc < len(fr.block.Instrs) {
				if _, ok := fr.block.Instrs[fr.pc].(*ssa.Phi); !ok {
					break
				}
				fr.pc++
			}
		case *ssa.Jump:
			fr.prev, fr.block, fr.pc = fr.block, fr.block.Succs[0], 0
		case *ssa.If:
			more, dead := e.branch(st, fr, x)
			if dead {
				return more
			}
			if more != nil {
				return append(more, st)
			}
		case *ssa.Return:
			var rs []*T
			for _, r := range x.Results {
				rs = append(rs, e.val(st, fr, r))
			}
			if fr.commit != nil && len(rs) == 1 {
				// badger's Update: commit when the function succeeded
				z := e.mkEq(st, rs[0], mkNil(rs[0].Typ))
				v, known := decideIn(st.facts, z)
				var fail *state
				if !known {
					fail = st.clone()
					e.assume(fail, z, false, e.P.pos(x.Pos()))
					e.ret(fail, rs, x.Pos())
					e.assume(st, z, true, e.P.pos(x.Pos()))
				}
				if !known || v {
					ev := e.event(st, fr, "call", "(*github.com/dgraph-io/badger/v3.Txn).Commit", nil, []*T{fr.commit}, fr.in, fr.in.Common())
					ev.Res = []*T{mk("res", fmt.Sprintf("Commit#%d.0", ev.Seq), rs[0].Typ)}
					rs = ev.Res
				}
				e.ret(st, rs, x.Pos())
				if fail != nil {
					return []*state{fail, st}
				}
				continue
			}
			if e.ret(st, rs, x.Pos()) {
				return nil
			}
		case *ssa.Panic:
			e.finish(st, "panic", []*T{e.val(st, fr, x.X)}, e.P.pos(x.Pos()))
			return nil
		case *ssa.RunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				fr.pc-- // come back for the next one
				cont, more := e.call(st, fr, d.call.Common(), nil, d.fn, d.args, d.call, true)
				if !cont {
					return more
				}
				if more != nil {
					return append(more, st)
				}
			}
		case *ssa.Defer:
			fn, args := e.callee(st, fr, x.Common())
			fr.defers = append(fr.defers, deferred{x, fn, args})
		case *ssa.Go:
			fn, args := e.callee(st, fr, x.Common())
			e.event(st, fr, "go", e.calleeName(x.Common(), fn), nil, append([]*T{fn}, args...), x, x.Common())
		case *ssa.Call:
			fn, args := e.callee(st, fr, x.Common())
			cont, more := e.call(st, fr, x.Common(), x, fn, args, x, false)
			if !cont {
				return more
			}
			if more != nil {
				return append(more, st)
			}
		case *ssa.Store:
			if e.Cfg.SkipTables > 0 && bigTable(x.Addr, e.Cfg.SkipTables) {
				continue
			}
			addr := e.val(st, fr, x.Addr)
			v := e.val(st, fr, x.Val)
			e.store(st, addr, v)
			if r := addrRoot(addr); r.Op != "alloc" {
				ev := e.event(st, fr, "store", "store", nil, []*T{addr, v}, x, nil)
				_ = ev
			}
		case *ssa.MapUpdate:
			m := e.val(st, fr, x.Map)
			k := e.val(st, fr, x.Key)
			v := e.val(st, fr, x.Value)
			st.mem[mk("mapent", "", nil, deepStrip(m), deepStrip(k))] = v
			if d := mk("mapdirty", "", nil, deepStrip(m)); st.mem[d] == nil {
				st.mem[d] = mkBool(true)
			}
			if m.Op != "alloc" {
				e.event(st, fr, "store", "mapupdate", nil, []*T{m, k, v}, x, nil)
			}
		case *ssa.Send:
			e.event(st, fr, "send", "send", nil, []*T{e.val(st, fr, x.Chan), e.val(st, fr, x.X)}, x, nil)
		case ssa.Value:
			fr.regs[x] = e.value(st, fr, x)
		default:
			panic(fmt.Sprintf("unhandled instruction %T", in))
		}
	}
}

// ret pops a frame. Returns true when the root function returned.
func (e *Engine) ret(st *state, rs []*T, pos token.Pos) bool {
	fr := st.frames[len(st.frames)-1]
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		e.finish(st, "return", rs, e.P.pos(pos))
		return true
	}
	if fr.ret != nil {
		caller := st.frames[len(st.frames)-1]
		caller.regs[fr.ret] = tuple(rs)
	}
	return false
}

func tuple(rs []*T) *T {
	switch len(rs) {
	case 0:
		return mk("unit", "", nil)
	case 1:
		return rs[0]
	}
	return mk("tuple", "", nil, rs...)
}

func (e *Engine) val(st *state, fr *frame, v ssa.Value) *T {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		t := mk("global", shortName(x.String()), x.Type())
		t.X = x
		return t
	case *ssa.Function:
		t := mk("fn", x.String(), x.Type())
		t.X = x
		return t
	case *ssa.Builtin:
		return mk("builtin", x.Name(), x.Type())
	}
	if t, ok := fr.regs[v]; ok {
		return t
	}
	return mk("undef", fr.fn.String()+"."+v.Name(), v.Type())
}

func constTerm(x *ssa.Const) *T {
	if x.Value == nil {
		return zero(x.Type())
	}
	return mkConst(x.Value, x.Type())
}

// zero value of a type
func zero(t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
		return mkNil(t)
	case *types.Struct:
		var as []*T
		name := objName(t)
		for i := 0; i < u.NumFields(); i++ {
			if pbInternal(u.Field(i)) {
				continue
			}
			name += ";" + u.Field(i).Name()
			as = append(as, zero(u.Field(i).Type()))
		}
		return mk("obj", name, t, as...)
	case *types.Array:
		return mk("zeroarr", shortT(t), t)
	case *types.Tuple:
		return mk("unit", "", nil)
	}
	return mkNil(t)
}

func pbInternal(f *types.Var) bool {
	switch f.Name() {
	case "sizeCache", "unknownFields":
		return true
	case "state":
		return strings.HasSuffix(f.Type().String(), "MessageState")
	}
	return false
}

func addrRoot(a *T) *T {
	for a.Op == "faddr" || a.Op == "iaddr" || a.Op == "slice" {
		a = a.A[0]
	}
	return a
}

func (e *Engine) store(st *state, addr, v *T) {
	// a whole-object store supersedes the stores to its parts
	for k := range st.mem {
		if k != addr && (k.Op == "faddr" || k.Op == "iaddr") && under(k, addr) {
			delete(st.mem, k)
		}
	}
	st.mem[addr] = v
}

func under(k, addr *T) bool {
	for k.Op == "faddr" || k.Op == "iaddr" {
		k = k.A[0]
		if k == addr {
			return true
		}
	}
	return false
}

func fieldType(p types.Type, name string) types.Type {
	if p == nil {
		return nil
	}
	if pt, ok := p.Underlying().(*types.Pointer); ok {
		p = pt.Elem()
	}
	s, ok := p.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// load returns the value stored at an address.
func (e *Engine) load(st *state, addr *T, typ types.Type) *T {
	if v, ok := st.mem[addr]; ok {
		// overlay partial stores made after the whole store
		if e.hasParts(st, addr) && typ != nil {
			if s, ok := typ.Underlying().(*types.Struct); ok {
				return e.structAt(st, addr, typ, s)
			}
		}
		return v
	}
	if typ != nil {
		if s, ok := typ.Underlying().(*types.Struct); ok && (addrRoot(addr).Op == "alloc" && st.base[addrRoot(addr)] == nil || e.hasParts(st, addr)) {
			return e.structAt(st, addr, typ, s)
		}
	}
	return e.content(st, addr, typ)
}

func (e *Engine) hasParts(st *state, addr *T) bool {
	for k := range st.mem {
		if (k.Op == "faddr" || k.Op == "iaddr") && under(k, addr) {
			return true
		}
	}
	return false
}

func (e *Engine) structAt(st *state, addr *T, typ types.Type, s *types.Struct) *T {
	name := objName(typ)
	var as []*T
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if pbInternal(f) {
			continue
		}
		name += ";" + f.Name()
		as = append(as, e.load(st, mk("faddr", f.Name(), types.NewPointer(f.Type()), addr), f.Type()))
	}
	return mk("obj", name, typ, as...)
}

func (e *Engine) content(st *state, addr *T, typ types.Type) *T {
	switch addr.Op {
	case "ref":
		return addr.A[0]
	case "alloc":
		if b := st.base[addr]; b != nil {
			return b
		}
		if typ == nil {
			if pt, ok := addr.Typ.Underlying().(*types.Pointer); ok {
				typ = pt.Elem()
			} else {
				return mkNil(nil)
			}
		}
		return zero(typ)
	case "faddr":
		p := addr.A[0]
		var parent *T
		if v, ok := st.mem[p]; ok {
			parent = v
		} else if p.Op == "alloc" || p.Op == "faddr" || p.Op == "iaddr" {
			if p.Op == "alloc" && st.base[p] == nil {
				if typ == nil {
					typ = fieldType(p.Typ, addr.S)
				}
				if typ != nil {
					return zero(typ)
				}
			}
			parent = e.content(st, p, nil)
			if parent.Op == "obj" || parent.Op == "zeroarr" {
				if v := objField(parent, addr.S); v != nil {
					return v
				}
				if typ != nil {
					return zero(typ)
				}
			}
			if parent.isNil() && typ != nil { // zero struct of unknown type
				return zero(typ)
			}
		} else {
			parent = p
		}
		return mkField(parent, addr.S, typ)
	case "iaddr":
		p, i := addr.A[0], addr.A[1]
		if p.Op == "alloc" {
			if v := e.generalise(st, p, i); v != nil {
				return v
			}
			if v := st.mem[p]; v != nil {
				if v.Op == "zeroarr" && typ != nil {
					return zero(typ)
				}
				return mkElem(v, i, typ)
			}
			if st.base[p] == nil {
				if typ != nil {
					return zero(typ)
				}
				return mk("elem", "", typ, p, i)
			}
			return mkElem(st.base[p], i, typ)
		}
		if p.Op == "faddr" || p.Op == "iaddr" {
			return mkElem(e.load(st, p, nil), i, typ)
		}
		return mkElem(p, i, typ)
	case "global":
		if c := e.P.globalConst(addr.X.(*ssa.Global)); c != nil {
			return c
		}
		t := mk("gval", addr.S, typ)
		t.X = addr.X
		return t
	}
	if typ != nil {
		if _, ok := typ.Underlying().(*types.Struct); ok {
			return mk("deref", "", typ, addr)
		}
	}
	return mk("deref", "", typ, addr)
}

func mkElem(b, i *T, typ types.Type) *T {
	if b.Op == "append" && len(b.A) == 2 && b.A[0].isNil() && b.A[1].Op != "alloc" {
		return mkElem(b.A[1], i, typ)
	}
	if b.Op == "slicelit" {
		if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(b.A) {
			return b.A[n]
		}
	}
	return mk("elem", "", typ, b, i)
}

// deep snapshots a value: pointers to locally allocated objects are replaced
// by the object's current content.
func (e *Engine) deep(st *state, t *T) *T { return e.deepR(st, t, 0) }

func (e *Engine) deepR(st *state, t *T, d int) *T {
	if t == nil || d > 10 {
		return t
	}
	switch t.Op {
	case "alloc":
		if l, ok := st.lens[t]; ok {
			return e.sliceSnap(st, t, l, d)
		}
		if pt, ok := t.Typ.Underlying().(*types.Pointer); ok {
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				if v := st.mem[t]; v != nil && isBig(pt.Elem()) {
					return v
				}
				if b := st.base[t]; b != nil && !e.hasParts(st, t) {
					if _, w := st.mem[t]; !w {
						return b
					}
				}
				o := e.structAt(st, t, pt.Elem(), s)
				return e.deepArgs(st, o, d)
			}
			if _, ok := pt.Elem().Underlying().(*types.Array); ok {
				return e.arraySnap(st, t, d)
			}
			return mk("ref", "", t.Typ, e.deepR(st, e.load(st, t, pt.Elem()), d+1))
		}
		return t
	case "faddr":
		if addrRoot(t).Op == "alloc" {
			return e.deepR(st, e.load(st, t, nil), d+1)
		}
		return t
	case "slice":
		if t.A[0].Op == "alloc" && t.A[1].isNil() && t.A[2].isNil() {
			return e.deepR(st, t.A[0], d)
		}
		if n, ok := t.A[2].intVal(); ok && n == 0 {
			return mk("slicelit", "", t.Typ) // an empty slice with capacity
		}
		return e.deepArgs(st, t, d)
	case "const", "nil", "param", "global", "gval", "fn", "res", "out", "unit":
		return t
	case "iface", "as":
		return e.deepR(st, t.A[0], d)
	}
	return e.deepArgs(st, t, d)
}

func (e *Engine) deepArgs(st *state, t *T, d int) *T {
	if len(t.A) == 0 {
		return t
	}
	na := make([]*T, len(t.A))
	ch := false
	for i, a := range t.A {
		na[i] = e.deepR(st, a, d+1)
		if na[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	if t.Op == "append" {
		return mkAppend(na[0], na[1], t.Typ)
	}
	if t.Op == "elem" {
		return mkElem(na[0], na[1], t.Typ)
	}
	n := mk(t.Op, t.S, t.Typ, na...)
	n.C, n.X = t.C, t.X
	return n
}

func (e *Engine) arraySnap(st *state, t *T, d int) *T {
	pt := t.Typ.Underlying().(*types.Pointer)
	n := int(pt.Elem().Underlying().(*types.Array).Len())
	et := pt.Elem().Underlying().(*types.Array).Elem()
	if n > 64 {
		return t
	}
	if !e.hasParts(st, t) {
		// the array as a whole
		if v := st.mem[t]; v != nil && v.Op != "zeroarr" {
			return e.deepR(st, v, d+1)
		}
		if b := st.base[t]; b != nil && st.mem[t] == nil {
			return b
		}
	}
	as := make([]*T, n)
	for i := 0; i < n; i++ {
		as[i] = e.deepR(st, e.load(st, mk("iaddr", "", nil, t, mkInt(int64(i))), et), d+1)
	}
	return mk("slicelit", "", pt.Elem(), as...)
}

// sliceSnap snapshots a made slice: length plus the entries written so far.
func (e *Engine) sliceSnap(st *state, t, l *T, d int) *T {
	type ent struct {
		i, v *T
	}
	var es []ent
	for k, v := range st.mem {
		if k.Op == "iaddr" && k.A[0] == t {
			es = append(es, ent{k.A[1], v})
		}
	}
	sort.Slice(es, func(i, j int) bool {
		a, ok1 := es[i].i.intVal()
		b, ok2 := es[j].i.intVal()
		if ok1 && ok2 {
			return a < b
		}
		return es[i].i.id < es[j].i.id
	})
	as := []*T{e.deepR(st, l, d+1)}
	for _, x := range es {
		as = append(as, e.deepR(st, x.i, d+1), e.deepR(st, x.v, d+1))
	}
	base := st.base[t]
	s := ""
	if base != nil {
		s = "base"
		as = append(as, base)
	}
	return mk("mslice", s, t.Typ, as...)
}

func mkAppend(a, b *T, typ types.Type) *T {
	if b.Op == "slicelit" {
		if a.isNil() {
			return mk("slicelit", "", typ, b.A...)
		}
		if a.Op == "slicelit" {
			return mk("slicelit", "", typ, append(append([]*T(nil), a.A...), b.A...)...)
		}
		if a.Op == "mslice" && a.S == "" && len(a.A) == 1 {
			if n, ok := a.A[0].intVal(); ok && n == 0 {
				return mk("slicelit", "", typ, b.A...)
			}
		}
	}
	if b.isNil() {
		return a
	}
	return mk("append", "", typ, a, b)
}

func (e *Engine) newAlloc(st *state, what string, typ types.Type) *T {
	st.nalloc++
	return mk("alloc", fmt.Sprintf("%s@%d", what, st.nalloc), typ)
}

func (e *Engine) value(st *state, fr *frame, v ssa.Value) *T {
	switch x := v.(type) {
	case *ssa.Alloc:
		return e.newAlloc(st, shortT(x.Type().Underlying().(*types.Pointer).Elem()), x.Type())
	case *ssa.BinOp:
		return e.binop(st, x.Op, e.val(st, fr, x.X), e.val(st, fr, x.Y), x.Type(), x.X.Type())
	case *ssa.UnOp:
		a := e.val(st, fr, x.X)
		switch x.Op {
		case token.MUL:
			return e.load(st, a, x.Type())
		case token.NOT:
			return mkNot(a)
		case token.SUB:
			if n, ok := a.intVal(); ok {
				return mkInt(-n)
			}
			return mk("un", "-", x.Type(), a)
		case token.ARROW:
			ev := e.event(st, fr, "recv", "recv", nil, []*T{a}, x, nil)
			r := mk("res", fmt.Sprintf("recv#%d", ev.Seq), x.Type())
			if x.CommaOk {
				return mk("tuple", "", nil, r, mk("res", fmt.Sprintf("recvok#%d", ev.Seq), types.Typ[types.Bool]))
			}
			return r
		}
		return mk("un", x.Op.String(), x.Type(), a)
	case *ssa.ChangeType:
		return e.val(st, fr, x.X)
	case *ssa.ChangeInterface:
		return e.val(st, fr, x.X)
	case *ssa.Convert:
		return mkConv(e.val(st, fr, x.X), x.Type())
	case *ssa.MultiConvert:
		return mkConv(e.val(st, fr, x.X), x.Type())
	case *ssa.MakeInterface:
		a := e.val(st, fr, x.X)
		t := mk("iface", shortT(x.X.Type()), x.Type(), a)
		t.X = x.X.Type()
		return t
	case *ssa.MakeClosure:
		var bs []*T
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, fr, b))
		}
		t := mk("closure", x.Fn.String(), x.Type(), bs...)
		t.X = x.Fn
		return t
	case *ssa.FieldAddr:
		f := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field)
		return mk("faddr", f.Name(), x.Type(), stripPtr(e.val(st, fr, x.X)))
	case *ssa.Field:
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		return mkField(e.val(st, fr, x.X), f.Name(), x.Type())
	case *ssa.IndexAddr:
		b := e.val(st, fr, x.X)
		i := e.val(st, fr, x.Index)
		for b.Op == "slice" {
			if b.A[1].isNil() {
				b = b.A[0]
				continue
			}
			lo, ok1 := b.A[1].intVal()
			n, ok2 := i.intVal()
			if !ok1 || !ok2 {
				break
			}
			i = mkInt(lo + n)
			b = b.A[0]
		}
		return mk("iaddr", "", x.Type(), b, i)
	case *ssa.Index:
		return mkElem(e.val(st, fr, x.X), e.val(st, fr, x.Index), x.Type())
	case *ssa.Lookup:
		m, k := e.val(st, fr, x.X), e.val(st, fr, x.Index)
		return e.lookup(st, m, k, x)
	case *ssa.Slice:
		b := e.val(st, fr, x.X)
		lo, hi, mx := mkNil(nil), mkNil(nil), mkNil(nil)
		if x.Low != nil {
			lo = e.val(st, fr, x.Low)
			if n, ok := lo.intVal(); ok && n == 0 {
				lo = mkNil(nil)
			}
		}
		if x.High != nil {
			hi = e.val(st, fr, x.High)
		}
		if x.Max != nil {
			mx = e.val(st, fr, x.Max)
		}
		if n, ok := hi.intVal(); ok && n > 0 && mx.isNil() && b.Op == "alloc" && arrayLen(b) == n {
			hi = mkNil(nil)
		}
		if lo.isNil() && hi.isNil() && mx.isNil() && b.Op != "alloc" {
			return b
		}
		return mk("slice", "", x.Type(), b, lo, hi, mx)
	case *ssa.MakeSlice:
		a := e.newAlloc(st, "make:"+shortT(x.Type()), x.Type())
		st.lens[a] = e.val(st, fr, x.Len)
		return a
	case *ssa.MakeMap:
		return e.newAlloc(st, "make:"+shortT(x.Type()), x.Type())
	case *ssa.MakeChan:
		return e.newAlloc(st, "make:"+shortT(x.Type()), x.Type())
	case *ssa.Range:
		st.nalloc++
		m := e.val(st, fr, x.X)
		t := mk("range", fmt.Sprintf("%d", st.nalloc), nil, m)
		if keys, vals, ok := st.knownMap(m); ok && len(keys) <= 3 {
			// a map made here whose entries are all known
			t = mk("range", fmt.Sprintf("%d", st.nalloc), nil, m, mk("tuple", "", nil, keys...), mk("tuple", "", nil, vals...))
		}
		st.iters[t] = 0
		return t
	case *ssa.Next:
		r := e.val(st, fr, x.Iter)
		n := st.iters[r]
		st.iters[r] = n + 1
		col := r.A[0]
		ok := mk("lt", "", types.Typ[types.Bool], mkInt(int64(n)), mk("len", "", types.Typ[types.Int], col))
		tp := x.Type().(*types.Tuple)
		if len(r.A) == 3 {
			if n < len(r.A[1].A) {
				return mk("tuple", "", nil, mkBool(true), r.A[1].A[n], r.A[2].A[n])
			}
			return mk("tuple", "", nil, mkBool(false), mkNil(nil), mkNil(nil))
		}
		k := mk("rkey", "", tp.At(1).Type(), col, mkInt(int64(n)))
		vv := mk("rval", "", tp.At(2).Type(), col, mkInt(int64(n)))
		return mk("tuple", "", nil, ok, k, vv)
	case *ssa.Extract:
		t := e.val(st, fr, x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.A) {
			return t.A[x.Index]
		}
		return mk("ext", fmt.Sprint(x.Index), x.Type(), t)
	case *ssa.TypeAssert:
		a := e.val(st, fr, x.X)
		var r, ok *T
		in := a
		for in.Op == "as" {
			in = in.A[0]
		}
		if in.Op == "iface" {
			ct := in.X.(types.Type)
			if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				r = in
				ok = mkBool(types.Implements(ct, x.AssertedType.Underlying().(*types.Interface)))
			} else if types.Identical(ct, x.AssertedType) {
				r, ok = in.A[0], mkBool(true)
			} else {
				r, ok = zero(x.AssertedType), mkBool(false)
			}
		} else {
			r = mk("as", shortT(x.AssertedType), x.AssertedType, in)
			r.X = x.AssertedType
			ok = mk("isa", shortT(x.AssertedType), types.Typ[types.Bool], deepStrip(in))
		}
		if x.CommaOk {
			return mk("tuple", "", nil, r, ok)
		}
		if b, known := ok.boolVal(); !known || !b {
			e.event(st, fr, "typeassert", shortT(x.AssertedType), nil, []*T{a}, x, nil)
			if known && !b {
				// certain failure is a panic; leave as undefined value
			}
		}
		return r
	case *ssa.Select:
		ev := e.event(st, fr, "select", "select", nil, nil, x, nil)
		n := x.Type().(*types.Tuple).Len()
		var rs []*T
		for i := 0; i < n; i++ {
			rs = append(rs, mk("res", fmt.Sprintf("select#%d.%d", ev.Seq, i), x.Type().(*types.Tuple).At(i).Type()))
		}
		return tuple(rs)
	case *ssa.SliceToArrayPointer:
		return mk("conv", shortT(x.Type()), x.Type(), e.val(st, fr, x.X))
	}
	panic(fmt.Sprintf("unhandled value %T", v))
}

func stripPtr(t *T) *T {
	for t.Op == "as" || t.Op == "iface" {
		if t.Op == "as" && t.A[0].Op != "iface" {
			break
		}
		t = t.A[0]
	}
	return t
}

func (e *Engine) lookup(st *state, m, k *T, x *ssa.Lookup) *T {
	pair := func(v, ok *T) *T {
		if x.CommaOk {
			return mk("tuple", "", nil, v, ok)
		}
		return v
	}
	if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
		return mkElem(m, k, x.Type())
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	sm, sk := deepStrip(m), deepStrip(k)
	if v, ok := st.mem[mk("mapent", "", nil, sm, sk)]; ok {
		return pair(v, mkBool(true))
	}
	if m.Op == "alloc" && st.base[m] == nil {
		unknown := false
		if d, dirty := st.mem[mk("mapdirty", "", nil, sm)]; dirty {
			unknown = d.isNil()
			for kk := range st.mem {
				if kk.Op == "mapent" && kk.A[0] == sm {
					if !(kk.A[1].isConst() && sk.isConst()) {
						unknown = true
					}
				}
			}
		}
		if !unknown {
			return pair(zero(et), mkBool(false))
		}
	}
	v := mk("maplookup", "", et, sm, sk)
	return pair(v, mk("mapok", "", types.Typ[types.Bool], sm, sk))
}

// knownMap lists the entries of a map that was made on this path and only
// filled by the updates seen.
func (s *state) knownMap(m *T) (keys, vals []*T, ok bool) {
	if m.Op != "alloc" || s.base[m] != nil || !strings.HasPrefix(m.S, "make:map") {
		return nil, nil, false
	}
	sm := deepStrip(m)
	if d := s.mem[mk("mapdirty", "", nil, sm)]; d != nil && d.isNil() {
		return nil, nil, false
	}
	for k := range s.mem {
		if k.Op == "mapent" && k.A[0] == sm {
			keys = append(keys, k.A[1])
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	for _, k := range keys {
		vals = append(vals, s.mem[mk("mapent", "", nil, sm, k)])
	}
	return keys, vals, true
}

func mkConv(a *T, typ types.Type) *T {
	if a.isConst() {
		if b, ok := typ.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 && a.C.Kind() == constant.Int {
				return mkConst(a.C, typ)
			}
			if b.Info()&types.IsString != 0 && a.C.Kind() == constant.String {
				return mkConst(a.C, typ)
			}
		}
	}
	ut := typ.Underlying()
	// unbox nested conversions that undo each other: []byte(string(b))
	kind := shortT(ut)
	if b, ok := ut.(*types.Basic); ok {
		kind = b.Name()
	}
	return mk("conv", kind, typ, a)
}

func mkNot(a *T) *T {
	if b, ok := a.boolVal(); ok {
		return mkBool(!b)
	}
	if a.Op == "not" {
		return a.A[0]
	}
	return mk("not", "", types.Typ[types.Bool], a)
}

// arrayLen is the length of a local array, or -1.
func arrayLen(b *T) int64 {
	if pt, ok := b.Typ.Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			return at.Len()
		}
	}
	return -1
}

func (e *Engine) mkLen(st *state, x *T) *T {
	y := x
	for y.Op == "iface" || y.Op == "as" {
		y = y.A[0]
	}
	switch y.Op {
	case "nil":
		return mkInt(0)
	case "slicelit":
		return mkInt(int64(len(y.A)))
	case "const":
		if s, ok := y.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	case "alloc":
		if l, ok := st.lens[y]; ok {
			return l
		}
	case "slice":
		if y.A[1].isNil() && !y.A[2].isNil() {
			return y.A[2]
		}
		if !y.A[2].isNil() {
			if a, ok := y.A[1].intVal(); ok {
				if b, ok := y.A[2].intVal(); ok && a <= b {
					return mkInt(b - a)
				}
			}
		} else if r := roomOf(st, y); r != nil {
			return r
		}
	case "append":
		l1, l2 := e.mkLen(st, y.A[0]), e.mkLen(st, y.A[1])
		a, ok1 := l1.intVal()
		b, ok2 := l2.intVal()
		if ok1 && ok2 {
			return mkInt(a + b)
		}
		return e.binop(st, token.ADD, l1, l2, types.Typ[types.Int], nil)
	}
	return mk("len", "", types.Typ[types.Int], deepStrip(y))
}

func (e *Engine) binop(st *state, op token.Token, a, b *T, typ types.Type, opnd types.Type) *T {
	if a.isConst() && b.isConst() && a.C.Kind() == b.C.Kind() {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.C.Kind() == constant.Bool && op != token.EQL && op != token.NEQ {
				break
			}
			return mkBool(constant.Compare(a.C, op, b.C))
		case token.ADD, token.SUB, token.MUL:
			if a.C.Kind() == constant.Int || op == token.ADD && a.C.Kind() == constant.String {
				return mkConst(constant.BinaryOp(a.C, op, b.C), typ)
			}
		}
	}
	switch op {
	case token.EQL:
		return e.mkEq(st, a, b)
	case token.NEQ:
		return mkNot(e.mkEq(st, a, b))
	case token.LSS:
		return e.mkLt(a, b, opnd)
	case token.GTR:
		return e.mkLt(b, a, opnd)
	case token.LEQ:
		return mkNot(e.mkLt(b, a, opnd))
	case token.GEQ:
		return mkNot(e.mkLt(a, b, opnd))
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if op == token.ADD {
			if bt, ok := typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				break
			}
			if n, ok := b.intVal(); ok && n == 0 {
				return a
			}
			if n, ok := a.intVal(); ok && n == 0 {
				return b
			}
			// (x + c1) + c2 = x + (c1+c2)
			if a.isConst() {
				a, b = b, a
			}
			if n, ok := b.intVal(); ok && a.Op == "bin" && a.S == "+" && isSigned(typ) {
				for k := 0; k < 2; k++ {
					if m, ok := a.A[k].intVal(); ok {
						return e.binop(st, token.ADD, a.A[1-k], mkInt(n+m), typ, opnd)
					}
				}
			}
		}
		if a.isConst() || !b.isConst() && b.id < a.id {
			a, b = b, a
		}
	case token.SUB:
		if a == b {
			return mkInt(0)
		}
		if n, ok := b.intVal(); ok && isSigned(typ) {
			return e.binop(st, token.ADD, a, mkInt(-n), typ, opnd)
		}
	}
	return mk("bin", op.String(), typ, a, b)
}

func (e *Engine) mkEq(st *state, a, b *T) *T {
	a, b = deepStripKeepIface(a), deepStripKeepIface(b)
	if a == b && a.Op != "undef" {
		return mkBool(true)
	}
	if a.isNil() || b.isNil() {
		x := a
		if a.isNil() {
			x = b
		}
		if n, known := nilness(x); known {
			return mkBool(n)
		}
		return mk("eq", "", types.Typ[types.Bool], deepStrip(x), mkNil(nil))
	}
	a, b = deepStrip(a), deepStrip(b)
	if a.isConst() && b.isConst() && a.C.Kind() == b.C.Kind() {
		return mkBool(constant.Compare(a.C, token.EQL, b.C))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if bv, ok := b.boolVal(); ok {
			if bv {
				return a
			}
			return mkNot(a)
		}
		// s == "" is len(s) == 0
		if s, ok := b.strVal(); ok && int64(len(s)) < strLow(a) {
			return mkBool(false)
		}
		if s, ok := b.strVal(); ok && s == "" {
			return mk("eq", "", types.Typ[types.Bool], mk("len", "", types.Typ[types.Int], a), mkInt(0))
		}
		if n, ok := b.intVal(); ok && a.Op == "len" && n < lenLow(a) {
			return mkBool(false)
		}
		return mk("eq", "", types.Typ[types.Bool], a, b)
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return mkBool(false)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

func deepStripKeepIface(t *T) *T {
	if t.Op == "iface" {
		return t
	}
	return deepStrip(t)
}

// mkLt normalises a<b.
func (e *Engine) mkLt(a, b *T, opnd types.Type) *T {
	a, b = deepStrip(a), deepStrip(b)
	uns := false
	if opnd != nil {
		if bt, ok := opnd.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
			uns = true
		}
	}
	if isLenSum(a) || isLenSum(b) {
		uns = true
	}
	if n, ok := a.intVal(); ok && n < lenLow(b) {
		return mkBool(true)
	}
	if n, ok := a.intVal(); ok && n == 0 && uns {
		return mkNot(mk("eq", "", types.Typ[types.Bool], b, mkInt(0)))
	}
	if n, ok := b.intVal(); ok && uns {
		if n == 1 {
			return mk("eq", "", types.Typ[types.Bool], a, mkInt(0))
		}
		if n == 0 {
			return mkBool(false)
		}
	}
	if a == b {
		return mkBool(false)
	}
	return mk("lt", "", types.Typ[types.Bool], a, b)
}

// isLenSum: a length or a sum of lengths.
func isLenSum(t *T) bool {
	if t.Op == "bin" && t.S == "+" && len(t.A) == 2 {
		return isLenSum(t.A[0]) && isLenSum(t.A[1])
	}
	return t.Op == "len"
}

// lenLow is a lower bound of a sum of lengths and constants; 0 if there is none.
func lenLow(t *T) int64 {
	if t.Op == "len" {
		return strLow(deepStrip(t.A[0]))
	}
	if t.Op == "bin" && t.S == "+" && len(t.A) == 2 {
		for i := range t.A {
			if n, ok := t.A[i].intVal(); ok && n > 0 {
				if o := t.A[1-i]; isLenSum(o) || lenLow(o) > 0 {
					return n + lenLow(o)
				}
			}
		}
	}
	return 0
}

// strLow is a lower bound of the length of a string.
func strLow(t *T) int64 {
	if s, ok := t.strVal(); ok {
		return int64(len(s))
	}
	if t.Op == "bin" && t.S == "+" && len(t.A) == 2 {
		return strLow(deepStrip(t.A[0])) + strLow(deepStrip(t.A[1]))
	}
	return 0
}

// nilness: (isNil, known)
func nilness(x *T) (bool, bool) {
	switch x.Op {
	case "nil":
		return true, true
	case "alloc", "iface", "closure", "fn", "obj", "faddr", "iaddr", "global", "mslice":
		return false, true
	case "slicelit":
		return len(x.A) == 0, len(x.A) > 0
	case "slice":
		if x.A[0].Op == "alloc" {
			return false, true
		}
	case "as":
		return nilness(x.A[0])
	case "append":
		if n, k := nilness(x.A[0]); k && !n {
			return false, true
		}
	case "gval":
		if g, ok := x.X.(*ssa.Global); ok && g != nil {
			et := g.Type().Underlying().(*types.Pointer).Elem()
			if isErrorType(et) {
				return false, true // package-level error sentinels are initialised
			}
		}
	case "call":
		switch x.S {
		case "errors.New", "fmt.Errorf", "runtime/errors.New":
			return false, true
		}
	}
	return false, false
}

var errType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool {
	if t == nil {
		return false
	}
	return types.Identical(t, errType)
}

// atom splits a condition into (atom, polarity).
func atom(t *T) (*T, bool) {
	pol := true
	for t.Op == "not" {
		t = t.A[0]
		pol = !pol
	}
	return deepStrip(t), pol
}

// decide evaluates an atom under the facts.
func (s *state) decide(a *T) (bool, bool) { return decideIn(s.facts, a) }

func decideIn(facts map[*T]bool, a *T) (bool, bool) {
	if b, ok := a.boolVal(); ok {
		return b, true
	}
	if a.Op == "not" {
		v, k := decideIn(facts, a.A[0])
		return !v, k
	}
	if v, ok := facts[a]; ok {
		return v, true
	}
	switch a.Op {
	case "eq":
		x, c := a.A[0], a.A[1]
		if c.isNil() {
			if n, k := nilness(x); k {
				return n, true
			}
			// len(x) != 0 implies x != nil
			if v, ok := facts[mk("eq", "", nil, mk("len", "", nil, x), mkInt(0))]; ok && !v {
				return false, true
			}
			return false, false
		}
		if c.isConst() {
			for f, v := range facts {
				if v && f.Op == "eq" && f.A[0] == x && f.A[1].isConst() && f.A[1] != c && f.A[1].C.Kind() == c.C.Kind() {
					if !constant.Compare(f.A[1].C, token.EQL, c.C) {
						return false, true
					}
				}
			}
			if n, ok := c.intVal(); ok {
				lo, hi := bounds(facts, x)
				if n < lo || n > hi {
					return false, true
				}
				if lo == n && hi == n {
					return true, true
				}
				// len(x)==0 where x == nil
				if n == 0 && x.Op == "len" {
					if v, ok := facts[mk("eq", "", nil, x.A[0], mkNil(nil))]; ok && v {
						return true, true
					}
				}
			}
		}
	case "lt":
		if n, ok := a.A[0].intVal(); ok {
			lo, hi := bounds(facts, a.A[1])
			if n < lo {
				return true, true
			}
			if n >= hi {
				return false, true
			}
		}
		if n, ok := a.A[1].intVal(); ok {
			lo, hi := bounds(facts, a.A[0])
			if hi < n {
				return true, true
			}
			if lo >= n {
				return false, true
			}
		}
		// a<b known when b<a known true
		if v, ok := facts[mk("lt", "", nil, a.A[1], a.A[0])]; ok && v {
			return false, true
		}
	case "call":
		if a.S == "errors.Is" || a.S == "runtime/errors.Is" {
			if v, k := errorsIs(a.A[0], a.A[1], 0); k {
				return v, true
			}
			if v, k := decideIn(facts, mk("eq", "", nil, a.A[0], mkNil(nil))); k && v {
				return false, true
			}
			if a.A[0].isNil() {
				return false, true
			}
		}
	}
	return false, false
}

const inf = int64(1) << 60

func bounds(facts map[*T]bool, x *T) (lo, hi int64) {
	lo, hi = -inf, inf
	if x.Op == "len" {
		lo = 0
	}
	if x.Op == "len" && x.A[0].isNil() {
		return 0, 0
	}
	var ne []int64
	for f, v := range facts {
		switch f.Op {
		case "eq":
			if f.A[0] == x {
				if n, ok := f.A[1].intVal(); ok {
					if v {
						return n, n
					}
					ne = append(ne, n)
				}
			}
		case "lt":
			if f.A[1] == x {
				if n, ok := f.A[0].intVal(); ok {
					if v && n+1 > lo {
						lo = n + 1
					}
					if !v && n < hi {
						hi = n
					}
				}
			}
			if f.A[0] == x {
				if n, ok := f.A[1].intVal(); ok {
					if v && n-1 < hi {
						hi = n - 1
					}
					if !v && n > lo {
						lo = n
					}
				}
			}
		}
	}
	sort.Slice(ne, func(i, j int) bool { return ne[i] < ne[j] })
	for _, n := range ne {
		if n == lo {
			lo++
		}
	}
	return
}

func (e *Engine) assume(st *state, a *T, v bool, pos string) {
	if a.isConst() {
		return
	}
	st.facts[a] = v
	st.seq++
	st.flist = append(st.flist, Fact{a, v, st.seq, pos})
	st.sameLengths(a, v, pos)
	if a.Op == "call" && (a.S == "errors.Is" || a.S == "runtime/errors.Is") && v {
		n := mk("eq", "", types.Typ[types.Bool], a.A[0], mkNil(nil))
		if _, ok := st.facts[n]; !ok {
			st.facts[n] = false
			st.seq++
			st.flist = append(st.flist, Fact{n, false, st.seq, pos})
		}
	}
}

// lenAliases returns the lengths known to be equal to this one.
func lenAliases(facts map[*T]bool, t *T) []*T {
	if t == nil || t.Op != "len" {
		return nil
	}
	seen := map[*T]bool{t: true}
	todo := []*T{t}
	var out []*T
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for f, v := range facts {
			if !v || f.Op != "eq" || f.A[0].Op != "len" || f.A[1].Op != "len" {
				continue
			}
			for k := 0; k < 2; k++ {
				if y := f.A[1-k]; f.A[k] == x && !seen[y] {
					seen[y] = true
					out = append(out, y)
					todo = append(todo, y)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// sameLengths carries what is known of a length over to the lengths equal to
// it.
func (st *state) sameLengths(a *T, v bool, pos string) {
	add := func(f *T, v bool) {
		if _, ok := st.facts[f]; ok || f.isConst() {
			return
		}
		st.facts[f] = v
		st.seq++
		st.flist = append(st.flist, Fact{f, v, st.seq, pos})
	}
	if a.Op != "eq" && a.Op != "lt" {
		return
	}
	if v && a.Op == "eq" && a.A[0].Op == "len" && a.A[1].Op == "len" {
		all := append(lenAliases(st.facts, a.A[0]), a.A[0])
		in := map[*T]bool{}
		for _, x := range all {
			in[x] = true
		}
		for _, f := range append([]Fact(nil), st.flist...) {
			if f.Atom.Op != "eq" && f.Atom.Op != "lt" {
				continue
			}
			for k := 0; k < 2; k++ {
				if !in[f.Atom.A[k]] || in[f.Atom.A[1-k]] {
					continue
				}
				for _, x := range all {
					ops := []*T{f.Atom.A[0], f.Atom.A[1]}
					ops[k] = x
					add(mk(f.Atom.Op, "", f.Atom.Typ, ops...), f.Val)
				}
			}
		}
		return
	}
	for k := 0; k < 2; k++ {
		for _, x := range lenAliases(st.facts, a.A[k]) {
			if x == a.A[1-k] {
				continue
			}
			ops := []*T{a.A[0], a.A[1]}
			ops[k] = x
			add(mk(a.Op, "", a.Typ, ops...), v)
		}
	}
}

// branch handles an If. Returns extra states; dead=true means st itself must
// not continue.
func (e *Engine) branch(st *state, fr *frame, x *ssa.If) ([]*state, bool) {
	c := e.val(st, fr, x.Cond)
	a, pol := atom(c)
	take := func(s *state, f *frame, condTrue bool) {
		i := 0
		if !condTrue {
			i = 1
		}
		f.prev, f.block, f.pc = f.block, f.block.Succs[i], 0
	}
	v, known := st.decide(a)
	for h, body := range e.P.loopsOf(fr.fn) {
		if body[x.Block()] && !(body[x.Block().Succs[0]] && body[x.Block().Succs[1]]) && dependsOnPhi(x.Cond, h, 0) {
			fr.known[h] = known
		}
	}
	if known {
		take(st, fr, v == pol)
		return nil, false
	}
	pos := e.P.pos(x.Cond.Pos())
	if pos == "-" {
		pos = e.P.pos(x.Pos())
	}
	// loop control
	n := fr.forks[x]
	fr.forks[x] = n + 1
	fr.total[x]++
	inKnown := false
	if h, body := e.P.innermost(x.Block()); body != nil {
		inKnown = fr.known[h]
	}
	blockT, blockF := false, false
	if n >= e.Cfg.LoopK {
		in := func(s *ssa.BasicBlock) bool {
			if _, body := e.P.innermost(x.Block()); body != nil {
				if body[s] && !(inKnown) {
					// s stays in a loop that contains the If; it is an
					// exit if the other successor leaves that loop
					other := x.Block().Succs[0]
					if other == s {
						other = x.Block().Succs[1]
					}
					if !body[other] {
						return true
					}
				}
			}
			return false
		}
		if in(x.Block().Succs[0]) {
			blockT = true
		}
		if in(x.Block().Succs[1]) {
			blockF = true
		}
		if n >= 4*e.Cfg.LoopK && !inKnown || fr.total[x] > 64 {
			e.Pruned++
			return nil, true
		}
	}
	if blockT && blockF {
		e.Pruned++
		return nil, true
	}
	if blockT || blockF {
		e.Pruned++
		e.assume(st, a, blockF == pol, pos)
		take(st, fr, blockF)
		return nil, false
	}
	o := st.clone()
	e.assume(st, a, pol, pos)
	take(st, fr, true)
	of := o.frames[len(o.frames)-1]
	e.assume(o, a, !pol, pos)
	take(o, of, false)
	return []*state{o}, false
}

func (e *Engine) callee(st *state, fr *frame, c *ssa.CallCommon) (*T, []*T) {
	var args []*T
	for _, a := range c.Args {
		args = append(args, e.val(st, fr, a))
	}
	return e.val(st, fr, c.Value), args
}

func (e *Engine) calleeName(c *ssa.CallCommon, fn *T) string {
	if c.IsInvoke() {
		return shortName(c.Method.FullName())
	}
	if f := c.StaticCallee(); f != nil {
		return fname(f)
	}
	if fn != nil {
		if f, ok := fn.X.(*ssa.Function); ok {
			return fname(f)
		}
		if fn.Op == "builtin" {
			return fn.S
		}
	}
	return "dyn"
}

func (e *Engine) event(st *state, fr *frame, kind, name string, recv *T, args []*T, in ssa.Instruction, c *ssa.CallCommon) *Event {
	st.seq++
	ev := &Event{Seq: st.seq, Kind: kind, Fn: name, Recv: recv, Args: args, Pos: e.P.pos(in.Pos()), CallI: c}
	if ev.Pos == "-" && c != nil {
		ev.Pos = e.P.pos(c.Pos())
	}
	for _, f := range st.frames {
		ev.Stack = append(ev.Stack, fname(f.fn))
	}
	if e.Cfg.SkipTables > 0 {
		ev.Deep = args
		ev.DRecv = recv
		st.events = append(st.events, ev)
		return ev
	}
	for _, a := range args {
		ev.Deep = append(ev.Deep, e.deep(st, a))
	}
	if recv != nil {
		ev.DRecv = e.deep(st, recv)
	}
	st.events = append(st.events, ev)
	return ev
}

// call performs a call. cont=false: the state ended or was replaced by more.
func (e *Engine) call(st *state, fr *frame, c *ssa.CallCommon, dst ssa.Value, fn *T, args []*T, in ssa.Instruction, isDefer bool) (bool, []*state) {
	set := func(t *T) {
		if dst != nil {
			fr.regs[dst] = t
		}
	}
	var retT types.Type = c.Signature().Results()
	if c.IsInvoke() {
		recv := fn
		name := shortName(c.Method.FullName())
		inner := recv
		for inner.Op == "as" {
			inner = inner.A[0]
		}
		if inner.Op == "iface" && !e.opaque(name) {
			ct := inner.X.(types.Type)
			sel := e.P.SSA.MethodSets.MethodSet(ct).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel != nil {
				if m := e.P.SSA.MethodValue(sel); m != nil && !(e.Cfg.Pure != nil && e.Cfg.Pure(fname(m))) && !e.opaque(fname(m)) && !(e.Cfg.OpaqueFn != nil && e.Cfg.OpaqueFn(m)) && e.canInline(st, m) {
					return e.enter(st, m, append([]*T{inner.A[0]}, args...), nil, dst)
				}
				if m := e.P.SSA.MethodValue(sel); m != nil {
					return e.external(st, fr, fname(m), append([]*T{inner.A[0]}, args...), retT, set, in, c, m)
				}
			}
		}
		if e.pure(name) {
			set(pureCall(name, append([]*T{recv}, args...), retT))
			return true, nil
		}
		if !e.Cfg.NoDevirt && !e.opaque(name) && inRepoPath(pkgOf(c.Method)) && !primitiveIface[name] {
			impls := e.P.implementers(c.Value.Type())
			if len(impls) == 1 {
				sel := e.P.SSA.MethodSets.MethodSet(impls[0]).Lookup(c.Method.Pkg(), c.Method.Name())
				if m := e.P.SSA.MethodValue(sel); m != nil && e.canInline(st, m) {
					r := mk("as", shortT(impls[0]), impls[0], recv)
					r.X = impls[0]
					return e.enter(st, m, append([]*T{r}, args...), nil, dst)
				}
			}
		}
		ev := e.event(st, fr, "call", name, recv, args, in, c)
		ev.Defer = isDefer
		e.results(st, ev, name, retT, set)
		e.havoc(st, ev, name, args)
		return true, nil
	}
	if fn.Op == "builtin" {
		set(e.builtin(st, fr, fn.S, args, c, in))
		return true, nil
	}
	var target *ssa.Function
	var free []*T
	switch fn.Op {
	case "fn":
		target = fn.X.(*ssa.Function)
	case "closure":
		target = fn.X.(*ssa.Function)
		free = fn.A
	}
	if target == nil {
		ev := e.event(st, fr, "call", "dyn", fn, args, in, c)
		ev.Defer = isDefer
		e.results(st, ev, "dyn", retT, set)
		e.havoc(st, ev, "dyn", args)
		return true, nil
	}
	if isWrapper(target) {
		// a method value: the method called with the receiver bound
		if m := e.P.methodOfWrapper(target); m != nil {
			args, free, target = append(append([]*T{}, free...), args...), nil, m
		} else if e.canInline(st, target) {
			return e.enter(st, target, args, free, dst)
		}
	}
	name := fname(target)
	// generated getters read the field
	if f, ok := e.getter(target); ok && !e.opaque(name) {
		a := args[0]
		if stripPtr(a).isNil() {
			set(zero(f.Type()))
			return true, nil
		}
		set(e.load(st, mk("faddr", f.Name(), types.NewPointer(f.Type()), stripPtr(a)), f.Type()))
		return true, nil
	}
	if target.Name() == "ssa:wrapnilchk" {
		set(args[0])
		return true, nil
	}
	if !e.opaque(name) && !(e.Cfg.Pure != nil && e.Cfg.Pure(name)) && !(e.Cfg.OpaqueFn != nil && e.Cfg.OpaqueFn(target)) && e.canInline(st, target) {
		return e.enter(st, target, args, free, dst)
	}
	return e.external(st, fr, name, args, retT, set, in, c, target)
}

func pkgOf(f *types.Func) string {
	if f.Pkg() == nil {
		return ""
	}
	return f.Pkg().Path()
}

func (e *Engine) external(st *state, fr *frame, name string, args []*T, retT types.Type, set func(*T), in ssa.Instruction, c *ssa.CallCommon, target *ssa.Function) (bool, []*state) {
	switch {
	case strings.HasSuffix(name, "Endian).PutUint64") && len(args) == 3 && e.putUint64(st, name, args[1], args[2]):
		set(mk("unit", "", nil))
		return true, nil
	case name == fnSetNew && len(args) == 1:
		// a set remembers the collections it was filled from
		tp := retT.(*types.Tuple).At(0).Type()
		a := e.newAlloc(st, "strset", tp)
		st.base[a] = mk("call", fnSetNew, tp, deepStrip(e.deep(st, args[0])))
		set(a)
		return true, nil
	case name == fnSetAdd && len(args) == 2 && args[0].Op == "alloc" && st.base[args[0]] != nil && st.base[args[0]].Op == "call" && st.base[args[0]].S == fnSetNew:
		old := st.base[args[0]]
		st.base[args[0]] = mk("call", fnSetNew, old.Typ, mkAppend(old.A[0], deepStrip(e.deep(st, args[1])), old.A[0].Typ))
		set(mk("unit", "", nil))
		return true, nil
	}
	if r := e.bigInt(st, name, args, retT); r != nil {
		set(r)
		return true, nil
	}
	if e.pure(name) {
		da := make([]*T, len(args))
		for i, a := range args {
			da[i] = e.deep(st, a)
		}
		set(pureCall(name, da, retT))
		return true, nil
	}
	if name == "(*sync.Once).Do" && len(args) == 2 && (args[1].Op == "closure" || args[1].Op == "fn") && !args[0].isNil() {
		// the first call of Do runs the function; the others change nothing
		f, fargs, free := args[1].X.(*ssa.Function), []*T(nil), args[1].A
		if isWrapper(f) {
			if m := e.P.methodOfWrapper(f); m != nil {
				f, fargs, free = m, free, nil
			}
		}
		if e.canInline(st, f) {
			e.event(st, fr, "call", name, nil, args, in, c)
			return e.enter(st, f, fargs, free, nil)
		}
	}
	if call, ok := in.(*ssa.Call); ok && (name == "(*github.com/dgraph-io/badger/v3.DB).View" || name == "(*github.com/dgraph-io/badger/v3.DB).Update") && len(args) == 2 && (args[1].Op == "closure" || args[1].Op == "fn") {
		f := args[1].X.(*ssa.Function)
		if e.canInline(st, f) {
			ev := e.event(st, fr, "call", name, nil, args, in, c)
			txn := mk("res", fmt.Sprintf("txn#%d", ev.Seq), f.Params[0].Type())
			nf := e.push(st, f, []*T{txn}, args[1].A, call)
			if strings.HasSuffix(name, "Update") {
				nf.commit, nf.in = txn, call
			}
			return true, nil
		}
	}
	ev := e.event(st, fr, "call", name, nil, args, in, c)
	e.results(st, ev, name, retT, set)
	e.havoc(st, ev, name, args)
	return true, nil
}

const (
	fnSetNew = "github.com/scylladb/go-set/strset.New"
	fnSetAdd = "(*github.com/scylladb/go-set/strset.Set).Add"
)

func pureCall(name string, args []*T, retT types.Type) *T {
	tp, _ := retT.(*types.Tuple)
	sa := make([]*T, len(args))
	for i, a := range args {
		sa[i] = deepStrip(a)
	}
	if tp == nil || tp.Len() == 1 {
		var rt types.Type
		if tp != nil {
			rt = tp.At(0).Type()
		}
		return mk("call", name, rt, sa...)
	}
	var rs []*T
	for i := 0; i < tp.Len(); i++ {
		rs = append(rs, mk("call", fmt.Sprintf("%s#%d", name, i), tp.At(i).Type(), sa...))
	}
	return tuple(rs)
}

func (e *Engine) results(st *state, ev *Event, name string, retT types.Type, set func(*T)) {
	tp, _ := retT.(*types.Tuple)
	n := 0
	if tp != nil {
		n = tp.Len()
	}
	short := name
	if i := strings.LastIndex(short, "."); i >= 0 {
		short = short[i+1:]
	}
	for i := 0; i < n; i++ {
		t := mk("res", fmt.Sprintf("%s#%d.%d", short, ev.Seq, i), tp.At(i).Type())
		t.X = nil
		ev.Res = append(ev.Res, t)
	}
	set(tuple(ev.Res))
}

// havoc: an opaque call may write through the pointers it is given.
func (e *Engine) havoc(st *state, ev *Event, name string, args []*T) {
	if e.Cfg.ReadOnly != nil && e.Cfg.ReadOnly(name) || defaultReadOnly(name) {
		return
	}
	for i, a := range args {
		x := a
		for x.Op == "iface" || x.Op == "as" {
			x = x.A[0]
		}
		if x.Op == "slice" {
			x = x.A[0]
		}
		if x.Op != "alloc" {
			continue
		}
		for k := range st.mem {
			if under(k, x) || k == x {
				delete(st.mem, k)
			}
		}
		short := name
		if j := strings.LastIndex(short, "."); j >= 0 {
			short = short[j+1:]
		}
		st.base[x] = mk("out", fmt.Sprintf("%s#%d.out%d", short, ev.Seq, i), x.Typ)
	}
}

func (e *Engine) opaque(name string) bool { return e.Cfg.Opaque != nil && e.Cfg.Opaque(name) }
func (e *Engine) pure(name string) bool {
	if e.Cfg.Pure != nil && e.Cfg.Pure(name) {
		return true
	}
	if e.Cfg.Impure != nil && e.Cfg.Impure(name) {
		return false
	}
	return defaultPure(name)
}

func (e *Engine) canInline(st *state, f *ssa.Function) bool {
	if f.Blocks == nil || !inRepoFn(f) {
		return false
	}
	if e.Cfg.Inline != nil && !e.Cfg.Inline(f) {
		return false
	}
	if len(st.frames) >= e.Cfg.MaxDepth {
		return false
	}
	n := 0
	for _, fr := range st.frames {
		if fr.fn == f {
			n++
		}
	}
	if n >= 2 {
		return false
	}
	if defaultPure(fname(f)) {
		return false
	}
	if e.P.generatedPB(f) && !strings.HasPrefix(f.Name(), "Get") {
		return false
	}
	return true
}

func (e *Engine) enter(st *state, f *ssa.Function, args, free []*T, dst ssa.Value) (bool, []*state) {
	e.push(st, f, args, free, dst)
	return true, nil
}

// getter recognises generated protobuf getters.
func (e *Engine) getter(f *ssa.Function) (*types.Var, bool) {
	if f.Signature.Recv() == nil || !strings.HasPrefix(f.Name(), "Get") || !e.P.generatedPB(f) && fnPkgPath(f) != "google.golang.org/protobuf/types/known/anypb" || f.Signature.Params().Len() != 0 {
		return nil, false
	}
	pt, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if "Get"+s.Field(i).Name() == f.Name() {
			return s.Field(i), true
		}
	}
	return nil, false
}

func (e *Engine) builtin(st *state, fr *frame, name string, args []*T, c *ssa.CallCommon, in ssa.Instruction) *T {
	switch name {
	case "ssa:wrapnilchk":
		return args[0]
	case "len":
		return e.mkLen(st, args[0])
	case "cap":
		return mk("cap", "", types.Typ[types.Int], args[0])
	case "append":
		b := args[1]
		if b.Op == "slice" && b.A[0].Op == "alloc" {
			b = e.deepShallow(st, b)
		}
		a := args[0]
		if a.Op == "slice" && a.A[0].Op == "alloc" {
			// make([]T, 0) with a constant capacity
			if n, k := a.A[2].intVal(); k && n == 0 {
				if pt, ok := a.A[0].Typ.Underlying().(*types.Pointer); ok {
					if _, ok := pt.Elem().Underlying().(*types.Array); ok && a.A[1].isNil() {
						if b.isNil() {
							return a
						}
						r := mkAppend(mkNil(a.Typ), b, args[0].Typ)
						if r.Op == "slicelit" {
							return r
						}
						return mk("append", "", args[0].Typ, mk("slicelit", "", args[0].Typ), b)
					}
				}
			}
		}
		if a.Op == "alloc" {
			if l, ok := st.lens[a]; ok {
				if n, k := l.intVal(); k && n == 0 {
					// make([]T, 0, n) then append
					a = mkNil(a.Typ)
					r := mkAppend(a, b, args[0].Typ)
					if r.Op == "append" || r.isNil() {
						return mk("append", "", args[0].Typ, mk("slicelit", "", args[0].Typ), b)
					}
					return r
				}
			}
		}
		return mkAppend(a, b, args[0].Typ)
	case "copy":
		if r := e.copyInto(st, args[0], args[1]); r != nil {
			return r
		}
		ev := e.event(st, fr, "call", "copy", nil, args, in, c)
		e.havoc(st, ev, "copy!", args[:1])
		return mk("res", fmt.Sprintf("copy#%d", ev.Seq), types.Typ[types.Int])
	case "delete":
		e.event(st, fr, "store", "mapdelete", nil, args, in, c)
		if len(args) == 2 {
			sm, sk := deepStrip(args[0]), deepStrip(args[1])
			for k := range st.mem {
				if k.Op == "mapent" && k.A[0] == sm && (k.A[1] == sk || !k.A[1].isConst() || !sk.isConst()) {
					delete(st.mem, k)
				}
			}
			st.mem[mk("mapdirty", "", nil, sm)] = mkNil(nil)
		}
		return mk("unit", "", nil)
	}
	var rt types.Type
	if c.Signature().Results().Len() > 0 {
		rt = c.Signature().Results().At(0).Type()
	}
	return mk("bi", name, rt, args...)
}

// deepShallow turns a varargs array into a slice literal without looking
// inside its elements.
func (e *Engine) deepShallow(st *state, s *T) *T {
	a := s.A[0]
	if !s.A[1].isNil() || !s.A[2].isNil() {
		return s
	}
	pt, ok := a.Typ.Underlying().(*types.Pointer)
	if !ok {
		return s
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 64 {
		return s
	}
	if st.base[a] != nil && !e.hasParts(st, a) {
		return e.arraySnap(st, a, 0)
	}
	var as []*T
	for i := int64(0); i < at.Len(); i++ {
		as = append(as, e.load(st, mk("iaddr", "", nil, a, mkInt(i)), at.Elem()))
	}
	return mk("slicelit", "", s.Typ, as...)
}

func isSigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func dependsOnPhi(v ssa.Value, h *ssa.BasicBlock, d int) bool {
	if d > 4 {
		return false
	}
	switch y := v.(type) {
	case *ssa.Phi:
		b, ok := y.Type().Underlying().(*types.Basic)
		return y.Block() == h && ok && b.Info()&types.IsInteger != 0
	case *ssa.BinOp:
		return dependsOnPhi(y.X, h, d+1) || dependsOnPhi(y.Y, h, d+1)
	case *ssa.UnOp:
		return y.Op == token.NOT && dependsOnPhi(y.X, h, d+1)
	case *ssa.Convert:
		return dependsOnPhi(y.X, h, d+1)
	}
	return false
}

// widen replaces the constant values of loop counters by arbitrary values when
// a loop of unknown length starts its second (Generic: first) iteration, so
// that the iteration analysed stands for every later one. Loops over the same
// collection share the arbitrary index.
func (e *Engine) widen(st *state, fr *frame, vals map[*ssa.Phi]*T) {
	h := fr.block
	body, isH := e.P.loopsOf(fr.fn)[h]
	if !isH {
		return
	}
	back := body[fr.prev]
	if back {
		fr.visits[h]++
	} else {
		fr.visits[h] = 0
		for x := range fr.forks {
			if body[x.Block()] {
				delete(fr.forks, x)
			}
		}
	}
	if back && fr.visits[h] == 2 && !e.Cfg.Generic {
		// counters assumed to run in step with the index must have done so
		// in the arbitrary iteration
		for ph, cnt := range fr.steps[h] {
			if vals[ph] != nil && vals[cnt.ph] != nil && deepStrip(addInt(vals[ph], 0)) == deepStrip(addInt(vals[cnt.ph], cnt.diff)) {
				continue
			}
			e.noStep[ph] = true
			e.restart = true
		}
	}
	if back && fr.visits[h] != 1 || !back && !e.Cfg.Generic || back && e.Cfg.Generic {
		return
	}
	if fr.steps == nil {
		fr.steps = map[*ssa.BasicBlock]map[*ssa.Phi]inStep{}
	}
	delete(fr.steps, h)
	cnt, off, bound := e.tripTest(st, fr, h, body)
	if cnt == nil {
		return
	}
	cnt0, cntIsInt := vals[cnt].intVal()
	cntIsInt = cntIsInt && bound != nil
	var phs []*ssa.Phi
	for ph := range vals {
		phs = append(phs, ph)
	}
	sort.Slice(phs, func(i, j int) bool {
		if (phs[i] == cnt) != (phs[j] == cnt) {
			return phs[i] == cnt
		}
		return phs[i].Name() < phs[j].Name()
	})
	for _, ph := range phs {
		b, ok := ph.Type().Underlying().(*types.Basic)
		if !ok || !vals[ph].isConst() {
			continue
		}
		if b.Info()&types.IsInteger == 0 && !(e.Cfg.Generic && b.Info()&types.IsBoolean != 0) {
			continue
		}
		n, isInt := vals[ph].intVal()
		if ph == cnt && bound != nil && isInt {
			lo := n + off
			id := bound.id
			if al := lenAliases(st.facts, bound); len(al) > 0 && al[0].id < id {
				id = al[0].id
			}
			name := fmt.Sprintf("%d:%d", id, lo)
			ind := mk("ind", name, ph.Type())
			if e.indActive(st, fr, h, ind) {
				st.nalloc++
				ind = mk("ind", fmt.Sprintf("%s:%d", name, st.nalloc), ph.Type())
			}
			e.assume(st, mk("lt", "", types.Typ[types.Bool], mkInt(lo-1), ind), true, "loop")
			vals[ph] = e.binop(st, token.ADD, ind, mkInt(-off), ph.Type(), nil)
			continue
		}
		if old, ok := fr.regs[ph]; ok && isInt && cntIsInt && back && !e.noStep[ph] {
			oldCnt, ok1 := fr.regs[cnt]
			if ok1 {
				m, ok2 := old.intVal()
				mc, ok3 := oldCnt.intVal()
				if ok2 && ok3 && m != n && n-m == cnt0-mc {
					// assume that it runs in step with the index; checked
					// at the end of the arbitrary iteration
					if fr.steps[h] == nil {
						fr.steps[h] = map[*ssa.Phi]inStep{}
					}
					fr.steps[h][ph] = inStep{cnt, n - cnt0}
					vals[ph] = addInt(vals[cnt], n-cnt0)
					continue
				}
			}
		}
		st.nalloc++
		ind := mk("ind", fmt.Sprintf("i%d", st.nalloc), ph.Type())
		if isInt {
			up := true
			if old, ok := fr.regs[ph]; ok && back {
				if m, ok := old.intVal(); ok && m > n {
					up = false
				}
			} else if !back {
				up = !e.P.countsDown(ph)
			}
			if up {
				e.assume(st, mk("lt", "", types.Typ[types.Bool], mkInt(n-1), ind), true, "loop")
			} else {
				e.assume(st, mk("lt", "", types.Typ[types.Bool], ind, mkInt(n+1)), true, "loop")
			}
		}
		vals[ph] = ind
	}
}

// indActive: the symbol is the counter of an enclosing loop.
func (e *Engine) indActive(st *state, fr *frame, h *ssa.BasicBlock, ind *T) bool {
	for _, f := range st.frames {
		at := f.block
		if f == fr {
			at = h
		}
		for v, t := range f.regs {
			ph, ok := v.(*ssa.Phi)
			if !ok || findTerm(t, func(x *T) bool { return x == ind }) == nil {
				continue
			}
			if f == fr && ph.Block() == h {
				continue
			}
			if b := e.P.loopsOf(f.fn)[ph.Block()]; b != nil && b[at] {
				return true
			}
		}
	}
	return false
}

// tripTest finds the exit test of the loop on one of its counters against a
// value that is not a constant on this path: (counter, k, bound) such that the
// test compares counter+k with bound.
func (e *Engine) tripTest(st *state, fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (*ssa.Phi, int64, *T) {
	var bs []*ssa.BasicBlock
	for b := range body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || body[b.Succs[0]] && body[b.Succs[1]] || !dependsOnPhi(x.Cond, h, 0) {
			continue
		}
		bo, ok := x.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for k, o := range []ssa.Value{bo.X, bo.Y} {
			if dependsOnPhi(o, h, 0) {
				continue
			}
			if _, isC := o.(*ssa.Const); isC {
				continue
			}
			other := []ssa.Value{bo.Y, bo.X}[k]
			ph, off := phiPlus(other, h)
			if ph == nil {
				continue
			}
			if in, ok := o.(ssa.Instruction); ok && body[in.Block()] {
				if _, seen := fr.regs[o]; !seen || fr.visits[h] == 0 {
					return ph, off, mk("bound", fr.fn.String()+o.Name(), o.Type())
				}
			}
			v := e.val(st, fr, o)
			if v.isConst() {
				continue
			}
			return ph, off, deepStrip(v)
		}
	}
	return nil, 0, nil
}

// phiPlus matches phi or phi±const.
func phiPlus(v ssa.Value, h *ssa.BasicBlock) (*ssa.Phi, int64) {
	switch y := v.(type) {
	case *ssa.Phi:
		if y.Block() == h {
			return y, 0
		}
	case *ssa.BinOp:
		c, ok := y.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return nil, 0
		}
		n, ok := constant.Int64Val(constant.ToInt(c.Value))
		if !ok {
			return nil, 0
		}
		ph, k := phiPlus(y.X, h)
		switch y.Op {
		case token.ADD:
			return ph, k + n
		case token.SUB:
			return ph, k - n
		}
	case *ssa.Convert:
		return phiPlus(y.X, h)
	}
	return nil, 0
}

// countsDown: some edge of the phi is phi - c.
func (p *Prog) countsDown(ph *ssa.Phi) bool {
	for _, ed := range ph.Edges {
		if b, ok := ed.(*ssa.BinOp); ok && b.X == ph {
			if b.Op == token.SUB {
				return true
			}
		}
	}
	return false
}

// errorsIs decides errors.Is for errors built from known parts.
func errorsIs(x, target *T, d int) (bool, bool) {
	if d > 8 {
		return false, false
	}
	if x == target {
		return true, true
	}
	switch x.Op {
	case "nil":
		return false, true
	case "gval":
		if target.Op == "gval" && x.Typ != nil && isErrorType(x.Typ) {
			return false, true // distinct sentinels
		}
	case "call":
		switch x.S {
		case "errors.New", "runtime/errors.New":
			if target.Op == "gval" {
				return false, true
			}
		case "fmt.Errorf":
			f, ok := x.A[0].strVal()
			if !ok || len(x.A) < 2 {
				return false, false
			}
			if target.Op != "gval" {
				return false, false
			}
			args := x.A[1]
			if args.isNil() {
				return false, true
			}
			if args.Op != "slicelit" {
				return false, false
			}
			known := true
			for _, i := range wrapVerbs(f) {
				if i >= len(args.A) {
					continue
				}
				v, k := errorsIs(args.A[i], target, d+1)
				if k && v {
					return true, true
				}
				if !k {
					known = false
				}
			}
			return false, known
		}
	}
	return false, false
}

// wrapVerbs returns the argument positions of the %w verbs of a format.
func wrapVerbs(f string) []int {
	var out []int
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' {
			out = append(out, n)
		}
		n++
	}
	return out
}

// globalConst returns the value of a package variable that is initialised to a
// constant and never assigned again in the repository.
func (p *Prog) globalConst(g *ssa.Global) *T {
	if p.gconst == nil {
		p.gconst = map[*ssa.Global]*T{}
		cnt := map[*ssa.Global]int{}
		esc := map[*ssa.Global]bool{}
		for _, f := range p.allFuncs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if gl, ok := s.Addr.(*ssa.Global); ok {
							cnt[gl]++
							if c, ok := s.Val.(*ssa.Const); ok && f.Name() == "init" && gl.Name() != "init$guard" {
								p.gconst[gl] = constTerm(c)
							}
							if s.Val == ssa.Value(gl) {
								esc[gl] = true
							}
							continue
						}
					}
					for _, op := range in.Operands(nil) {
						if gl, ok := (*op).(*ssa.Global); ok {
							if u, ok := in.(*ssa.UnOp); !ok || u.Op != token.MUL {
								esc[gl] = true
							}
						}
					}
				}
			}
		}
		for gl := range p.gconst {
			if cnt[gl] != 1 || esc[gl] {
				delete(p.gconst, gl)
			}
		}
	}
	if g == nil {
		return nil
	}
	return p.gconst[g]
}

// generalise answers a read of a locally made slice at an index for which no
// store is recorded, when a loop stored to it at an arbitrary index: the value
// stored there, for this index.
func (e *Engine) generalise(st *state, p, i *T) *T {
	var cand []*T
	for k := range st.mem {
		if k.Op == "iaddr" && k.A[0] == p && findTerm(k.A[1], isInd) != nil {
			cand = append(cand, k)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	sort.Slice(cand, func(a, b int) bool { return cand[a].id < cand[b].id })
	k := cand[0]
	ki, kc := splitAdd(k.A[1])
	ii, ic := splitAdd(i)
	if ki == nil || ki.Op != "ind" {
		return nil
	}
	// ki + kc == ii + ic  =>  ki := ii + (ic-kc)
	var to *T
	if ii == nil {
		to = mkInt(ic - kc)
	} else if ic == kc {
		to = ii
	} else {
		to = mk("bin", "+", i.Typ, ii, mkInt(ic-kc))
	}
	return subst(st.mem[k], ki, to)
}

func isInd(t *T) bool { return t.Op == "ind" }

func splitAdd(t *T) (*T, int64) {
	if n, ok := t.intVal(); ok {
		return nil, n
	}
	if t.Op == "bin" && t.S == "+" {
		if n, ok := t.A[1].intVal(); ok {
			return t.A[0], n
		}
		if n, ok := t.A[0].intVal(); ok {
			return t.A[1], n
		}
	}
	return t, 0
}

func subst(t, from, to *T) *T {
	memo := map[*T]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if t == from {
			return to
		}
		if len(t.A) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*T, len(t.A))
		ch := false
		for i, a := range t.A {
			na[i] = rec(a)
			ch = ch || na[i] != a
		}
		r := t
		if ch {
			if t.Op == "bin" && t.S == "+" {
				b, c := splitAdd(na[0])
				n, ok := na[1].intVal()
				switch {
				case ok && b == nil:
					r = mkInt(c + n)
				case ok && c+n == 0:
					r = b
				case ok:
					r = mk("bin", "+", t.Typ, b, mkInt(c+n))
				default:
					r = mk(t.Op, t.S, t.Typ, na...)
				}
			} else if t.Op == "elem" {
				r = mkElem(na[0], na[1], t.Typ)
			} else {
				r = mk(t.Op, t.S, t.Typ, na...)
				r.C, r.X = t.C, t.X
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// bigTable: the address is that of an element of an array of more than n
// elements.
func bigTable(addr ssa.Value, n int64) bool {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	pt, ok := ia.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	return ok && at.Len() > n
}
