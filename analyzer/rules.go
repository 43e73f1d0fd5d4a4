package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx collects what one property's check analysed and what it found.
type Ctx struct {
	P     *Prog
	Prop  string
	Tier  string
	obls  map[string]int
	order []string
	fails []Viol
	seen  map[string]bool
	fns   map[string]bool
	cons  map[string]bool
	paths int
	prune int
	start time.Time
	// content of the multiple error being looked at (r_services.go)
	emptyErr *T
	known    []string
	sys      *Sys
}

type Viol struct {
	Key string `json:"key"`
	Pos string `json:"at"`
	Msg string `json:"what"`
}

// Obl counts one discharged-or-failed obligation of the given rule.
func (c *Ctx) Obl(rule string) {
	if _, ok := c.obls[rule]; !ok {
		c.order = append(c.order, rule)
	}
	c.obls[rule]++
}

// Fail records a violation. The key names rule and construct, never a line.
func (c *Ctx) Fail(key, pos, format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	if len(m) > 1500 {
		m = m[:1500] + "…"
	}
	c.fails = append(c.fails, Viol{key, pos, m})
}

// Check is Obl + Fail when the condition does not hold.
func (c *Ctx) Check(ok bool, rule, construct, pos, format string, a ...interface{}) bool {
	c.Obl(rule)
	c.cons[rule+" @ "+construct] = true
	if !ok {
		c.Fail(rule+":"+construct, pos, format, a...)
	}
	return ok
}

func (c *Ctx) fn(pkg, name string) *ssa.Function {
	f := c.P.fn(pkg, name)
	if f == nil {
		c.Fail("anchor:"+pkg+"."+name, "-", "function %s.%s not found", pkg, name)
	}
	return f
}

func (c *Ctx) method(pkg, typ, name string) *ssa.Function {
	f := c.P.method(pkg, typ, name)
	if f == nil || f.Blocks == nil {
		c.Fail("anchor:"+pkg+"."+typ+"."+name, "-", "method %s.%s.%s not found", pkg, typ, name)
		return nil
	}
	// resolve promotion wrappers
	return f
}

func (c *Ctx) run(f *ssa.Function, cfg Cfg) []*Path {
	return c.runFrom(newState(), f, c.P.engine(cfg).params(f), cfg)
}

func (c *Ctx) runFrom(st *state, f *ssa.Function, args []*T, cfg Cfg) []*Path {
	return c.runClosure(st, f, args, nil, cfg)
}

// target is the function that a function value stands for, with the arguments
// and captured values it brings along.
func (c *Ctx) target(fn *T) (f *ssa.Function, bound, free []*T) {
	fn = unconv(fn)
	switch fn.Op {
	case "fn":
		f = fn.X.(*ssa.Function)
	case "closure":
		f, free = fn.X.(*ssa.Function), fn.A
	default:
		return nil, nil, nil
	}
	if isWrapper(f) {
		if m := c.P.methodOfWrapper(f); m != nil {
			return m, free, nil
		}
	}
	return f, nil, free
}

func unconv(t *T) *T {
	for t != nil && (t.Op == "conv" || t.Op == "iface" || t.Op == "as") && len(t.A) > 0 {
		t = t.A[0]
	}
	return t
}

// runFunc analyses a function value; params gives the symbolic arguments.
func (c *Ctx) runFunc(st *state, fn *T, cfg Cfg) (f *ssa.Function, args []*T, ps []*Path) {
	f, bound, free := c.target(fn)
	if f == nil || f.Blocks == nil {
		return nil, nil, nil
	}
	args = c.P.engine(cfg).params(f)
	copy(args, bound)
	return f, args[len(bound):], c.runClosure(st, f, args, free, cfg)
}

func (c *Ctx) runClosure(st *state, f *ssa.Function, args, free []*T, cfg Cfg) []*Path {
	e := c.P.engine(cfg)
	ps := e.RunClosure(st, f, args, free)
	if e.Over && loopK > 2 && cfg.LoopK == 0 {
		// too many paths for the thorough bound: use that of the quick tier
		cfg.LoopK = 2
		e = c.P.engine(cfg)
		ps = e.RunClosure(st, f, args, free)
	}
	c.account(e, f, ps)
	return ps
}

func (c *Ctx) account(e *Engine, f *ssa.Function, ps []*Path) {
	for v := range e.Visited {
		c.fns[fname(v)] = true
	}
	c.paths += len(ps)
	c.prune += e.Pruned
	if e.Over {
		c.Fail("undecided:"+fname(f), c.P.pos(f.Pos()), "the path analysis of %s exceeded its budget", fname(f))
	}
	if len(ps) == 0 {
		c.Fail("undecided:"+fname(f), c.P.pos(f.Pos()), "no path of %s could be analysed", fname(f))
	}
}

// ---------------------------------------------------------------- facts

func (p *Path) errRet() *T {
	if len(p.Ret) == 0 {
		return nil
	}
	r := p.Ret[len(p.Ret)-1]
	return r
}

// success returns the facts of the path under the assumption that it returns
// without an error; ok=false when it cannot.
func (p *Path) success() (map[*T]bool, bool) {
	if p.Outcome != "return" {
		return nil, false
	}
	r := p.errRet()
	if r == nil {
		return p.facts, true
	}
	return p.assumeNil(r)
}

func (p *Path) assumeNil(r *T) (map[*T]bool, bool) {
	if r.isNil() {
		return p.facts, true
	}
	a := mk("eq", "", nil, deepStrip(r), mkNil(nil))
	if n, k := nilness(r); k {
		return p.facts, n
	}
	v, k := decideIn(p.facts, a)
	if k {
		return p.facts, v
	}
	f := cpm(p.facts)
	f[a] = true
	return f, true
}

func isNilIn(facts map[*T]bool, t *T) (bool, bool) {
	if n, k := nilness(t); k {
		return n, true
	}
	return decideIn(facts, mk("eq", "", nil, deepStrip(t), mkNil(nil)))
}

// okIn: the error result of the event is known to be nil.
func (e *Event) okIn(facts map[*T]bool) bool {
	if len(e.Res) == 0 {
		return true
	}
	v, k := isNilIn(facts, e.Res[len(e.Res)-1])
	return k && v
}

// failedIn: the error result of the event is known to be non-nil.
func (e *Event) failedIn(facts map[*T]bool) bool {
	if len(e.Res) == 0 {
		return false
	}
	v, k := isNilIn(facts, e.Res[len(e.Res)-1])
	return k && !v
}

// factsBefore returns the facts established before the given point.
func (p *Path) factsBefore(seq int) map[*T]bool {
	m := map[*T]bool{}
	for _, f := range p.Facts {
		if f.Seq < seq {
			m[f.Atom] = f.Val
		}
	}
	return m
}

func (p *Path) calls(name string) []*Event {
	var out []*Event
	for _, e := range p.Events {
		if (e.Kind == "call" || e.Kind == "go") && e.Fn == name {
			out = append(out, e)
		}
	}
	return out
}

func (p *Path) callsAny(names ...string) []*Event {
	var out []*Event
	for _, e := range p.Events {
		for _, n := range names {
			if e.Kind == "call" && e.Fn == n {
				out = append(out, e)
			}
		}
	}
	return out
}

// elems lists the index terms known to be inside col on this path; complete
// is true when the path also establishes that no further index is (the loop
// over col was left because it was exhausted).
func elems(facts map[*T]bool, col *T) (idx []*T, complete bool) {
	col = deepStrip(col)
	var l *T
	switch {
	case col.Op == "slicelit":
		for i := range col.A {
			idx = append(idx, mkInt(int64(i)))
		}
		return idx, true
	case col.isNil():
		return nil, true
	default:
		l = lenOf(col)
	}
	return elemsLen(facts, l)
}

// lenOf is the term that a loop over the collection compares its index with.
func lenOf(col *T) *T {
	col = deepStrip(col)
	if col.Op == "append" {
		return (&Engine{}).mkLen(newState(), col)
	}
	return mk("len", "", types.Typ[types.Int], col)
}

func elemsLen(facts map[*T]bool, l *T) (idx []*T, complete bool) {
	if n, ok := l.intVal(); ok {
		for i := int64(0); i < n; i++ {
			idx = append(idx, mkInt(i))
		}
		return idx, true
	}
	if lenLow(l) > 0 {
		idx = append(idx, mkInt(0))
	}
	for f, v := range facts {
		switch {
		case f.Op == "eq" && f.A[0] == l:
			n, ok := f.A[1].intVal()
			if ok && n == 0 {
				if v {
					complete = true
				} else {
					idx = append(idx, mkInt(0))
				}
			} else if ok && v {
				complete = true
				idx = nil
				for i := int64(0); i < n; i++ {
					idx = append(idx, mkInt(i))
				}
				return idx, true
			}
		case f.Op == "lt" && f.A[1] == l:
			if v {
				if n, ok := f.A[0].intVal(); ok && n == 0 {
					continue
				}
				idx = append(idx, f.A[0])
			} else {
				complete = true
			}
		case f.Op == "eq" && f.A[1] == l && v: // index == len
			complete = true
		case f.Op == "eq" && f.A[0].Op != "len" && f.A[1] == l && v:
			complete = true
		}
	}
	sort.Slice(idx, func(i, j int) bool { return idx[i].id < idx[j].id })
	return idx, complete
}

// ---------------------------------------------------------------- terms

func strEq(t *T, s string) bool {
	v, ok := strip(t).strVal()
	return ok && v == s
}

func intEq(t *T, n int64) bool {
	v, ok := strip(t).intVal()
	return ok && v == n
}

// constVal returns the value of a package-level constant.
func (p *Prog) constInt(pkg, name string) (int64, bool) {
	o, ok := p.obj(pkg, name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(o.Val())
}

func (p *Prog) constStr(pkg, name string) (string, bool) {
	o, ok := p.obj(pkg, name).(*types.Const)
	if !ok || o.Val().Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(o.Val()), true
}

// constsOf lists the constants of a named type declared in its package.
func (p *Prog) constsOf(n *types.Named) map[string]int64 {
	out := map[string]int64{}
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if k, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(k.Type(), n) {
			if v, ok := constant.Int64Val(k.Val()); ok {
				out[nm] = v
			}
		}
	}
	return out
}

// field reads a field of a value by name, from a snapshot or symbolically.
func field(t *T, names ...string) *T {
	for _, n := range names {
		if t == nil {
			return nil
		}
		t = objField(t, n)
	}
	return t
}

// ---------------------------------------------------------------- call graph

// callers maps each repo function to the functions that mention it (call,
// closure creation, method value, function value).
func (p *Prog) callers() map[*ssa.Function]map[*ssa.Function]bool {
	if p.callerMap != nil {
		return p.callerMap
	}
	m := map[*ssa.Function]map[*ssa.Function]bool{}
	add := func(from, to *ssa.Function) {
		if m[to] == nil {
			m[to] = map[*ssa.Function]bool{}
		}
		m[to][from] = true
	}
	for _, f := range p.allFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						add(f, g)
					}
				}
			}
		}
	}
	p.callerMap = m
	return m
}

// callSites lists the direct (static) calls to functions with the given short
// name, outside synthetic wrappers.
type CallSite struct {
	In   *ssa.Function
	Call ssa.CallInstruction
}

func (p *Prog) callSites(match func(name string) bool) []CallSite {
	var out []CallSite
	for _, f := range p.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && match(callName(c.Common())) {
					out = append(out, CallSite{f, c})
				}
				// method values and method expressions
				for _, op := range in.Operands(nil) {
					if w, ok := (*op).(*ssa.Function); ok && isWrapper(w) {
						for _, wb := range w.Blocks {
							for _, wi := range wb.Instrs {
								if c, ok := wi.(ssa.CallInstruction); ok && match(callName(c.Common())) {
									out = append(out, CallSite{f, c})
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

// isWrapper: the function stands for a method value or a method expression.
func isWrapper(f *ssa.Function) bool {
	return strings.HasPrefix(f.Synthetic, "bound method wrapper") || strings.HasPrefix(f.Synthetic, "thunk")
}

// methodOfWrapper is the concrete method behind a method value, nil when it is
// a method of an interface.
func (p *Prog) methodOfWrapper(w *ssa.Function) *ssa.Function {
	o, ok := w.Object().(*types.Func)
	if !ok {
		return nil
	}
	m := p.SSA.FuncValue(o)
	if m == nil || m == w || m.Blocks == nil {
		return nil
	}
	// promoted methods are called through the wrapper, which selects the field
	var recv types.Type
	if len(w.FreeVars) == 1 {
		recv = w.FreeVars[0].Type()
	} else if len(w.Params) > 0 {
		recv = w.Params[0].Type()
	}
	if recv == nil || !types.Identical(recv, m.Signature.Recv().Type()) {
		return nil
	}
	return m
}

func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return shortName(c.Method.FullName())
	}
	if f := c.StaticCallee(); f != nil {
		return fname(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "dyn"
}

func outer(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// ---------------------------------------------------------------- driver

type rule struct {
	id    string
	run   func(c *Ctx)
	expl  string
	notes []string
}

var rules []rule

func register(id, expl string, run func(c *Ctx), assumptions ...string) {
	rules = append(rules, rule{id, run, expl, assumptions})
}

func loadKnown(dir string) map[string]map[string]string {
	out := map[string]map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		prop := strings.TrimPrefix(f[0], "property=")
		key := strings.TrimPrefix(f[1], "key=")
		if out[prop] == nil {
			out[prop] = map[string]string{}
		}
		out[prop][key] = f[2]
	}
	return out
}

func check(p *Prog, loadErr error, dir, id, tier string, t0 time.Time) int {
	c := &Ctx{P: p, Prop: id, Tier: tier, obls: map[string]int{}, seen: map[string]bool{}, fns: map[string]bool{}, cons: map[string]bool{}, start: t0}
	var r *rule
	for i := range rules {
		if rules[i].id == id {
			r = &rules[i]
		}
	}
	if r == nil {
		fmt.Printf("unknown property %s\n", id)
		return 2
	}
	if loadErr != nil {
		c.Fail("load", "-", "%v", loadErr)
	} else {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("AN_DEBUG") != "" {
						panic(x)
					}
					c.Fail("internal", "-", "the analysis could not be completed: %v", x)
				}
			}()
			r.run(c)
		}()
	}
	known := loadKnown(dir)[id]
	var viol []Viol
	for _, v := range c.fails {
		if w, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", id, w, v.Key, v.Pos)
			c.known = append(c.known, v.Key)
			continue
		}
		viol = append(viol, v)
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	type oblig struct {
		Rule  string `json:"rule"`
		Count int    `json:"obligations"`
	}
	var obs []oblig
	tot := 0
	for _, o := range c.order {
		obs = append(obs, oblig{o, c.obls[o]})
		tot += c.obls[o]
	}
	if tot == 0 && len(viol) == 0 {
		viol = append(viol, Viol{"vacuous", "-", "the check found nothing to decide"})
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":             r.expl,
			"functions_analysed":      sortedKeys(c.fns),
			"paths":                   c.paths,
			"paths_cut_at_loop_bound": c.prune,
			"rules":                   obs,
			"obligations":             tot,
			"discharged":              tot - len(viol) - len(c.known),
			"known_findings":          c.known,
		},
		"assumptions": append([]string{"The Go type checker and the SSA builder of golang.org/x/tools represent the source faithfully.",
			"Loops over collections of unknown size are represented by a first and an arbitrary later iteration; memory reached through opaque calls is forgotten only for locally allocated objects."}, r.notes...),
		"wall_s":         time.Since(t0).Seconds(),
		"violations":     len(viol),
		"violation_list": viol,
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d\n", id, tot, len(c.fns), c.paths)
		return 0
	}
	rp := filepath.Join(dir, "evidence", id+".violation.txt")
	var sb strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n", v.Key, v.Pos, v.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range viol {
		if i < 20 {
			fmt.Printf("%s at %s: %s\n", v.Key, v.Pos, v.Msg)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func constOf(v int64, t types.Type) *T { return mkConst(constant.MakeInt64(v), t) }
