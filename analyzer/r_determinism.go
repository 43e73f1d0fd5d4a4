package main

// r_determinism.go: what a block does is a function of the block and of the
// state before it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "Every function that the block methods of an ABCI application can reach (static calls, all implementers of interfaces, all function values of a called signature) is searched for sources of nondeterminism, loops over maps whose result depends on their order, unsorted results of such loops, stored encodings that may differ, concurrency, and memory outside the store that outlives a block.", c26)
}

// blockMethods: the methods through which blocks change the state.
var blockMethods = []string{"InitChain", "BeginBlock", "DeliverTx", "EndBlock", "Commit"}

// reachable over-approximates the repository functions that run when the
// given ones do: static calls, implementers of interfaces called, function
// values mentioned, and functions whose value is taken anywhere when a
// function value of their signature is called. The value is one caller.
// Services run beside the state machine: they are not followed.
func (c *Ctx) reachable(roots []*ssa.Function) map[*ssa.Function]*ssa.Function {
	taken := map[string][]*ssa.Function{}
	for _, f := range c.P.allFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						k := sigKey(g.Signature)
						taken[k] = append(taken[k], g)
					}
				}
			}
		}
	}
	svc := c.iface("runtime/module", "ExtensionService")
	why := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	add := func(f, from *ssa.Function) {
		if f == nil || !inRepoPath(fnPkgPath(f)) || c.P.generatedPB(f) {
			return
		}
		if _, ok := why[f]; ok {
			return
		}
		why[f] = from
		work = append(work, f)
	}
	for _, r := range roots {
		add(r, nil)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g, f)
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() {
					if svc != nil && cc.Value.Type().Underlying() == svc {
						continue
					}
					for _, t := range c.P.implementers(cc.Value.Type()) {
						if svc != nil && types.Implements(t, svc) {
							continue
						}
						add(c.methodFor(t, cc.Method.Name()), f)
					}
					continue
				}
				if cc.StaticCallee() == nil {
					for _, g := range taken[sigKey(cc.Signature())] {
						add(g, f)
					}
				}
			}
		}
	}
	return why
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignature(nil, s.Params(), s.Results(), s.Variadic()), nil)
}

type determinism struct {
	c    *Ctx
	why  map[*ssa.Function]*ssa.Function
	free map[*ssa.Function]int
	// functions returning slices in the order of a map
	unordered map[*ssa.Function]bool
	queued    []*ssa.Function
	long      map[*types.Named]bool
	fresh     map[*ssa.Function]int
}

func c26(c *Ctx) {
	var roots, all []*ssa.Function
	for _, t := range c.abciApps() {
		for _, n := range blockMethods {
			f := c.methodFor(t, n)
			if c.Check(f != nil, "anchor:"+n, shortT(t), "-", "%s has no %s", shortT(t), n) {
				roots = append(roots, f)
			}
		}
		for _, n := range []string{"CheckTx", "Query", "Info"} {
			if f := c.methodFor(t, n); f != nil {
				all = append(all, f)
			}
		}
	}
	d := &determinism{c: c, free: map[*ssa.Function]int{}, unordered: map[*ssa.Function]bool{}, fresh: map[*ssa.Function]int{}}
	d.why = c.reachable(roots)
	d.longLived()
	for _, f := range inNameOrder(d.why) {
		c.fns[fname(f)] = true
		d.sources(f)
		d.ranges(f)
		d.encodings(f)
	}
	for i := 0; i < len(d.queued); i++ {
		d.callersOf(d.queued[i])
	}
	// memory that outlives a call, in blocks and in between
	var run []*ssa.Function
	for _, r := range roots {
		if r.Name() != "InitChain" {
			run = append(run, r)
		}
	}
	d.why = c.reachable(append(run, all...))
	for _, f := range inNameOrder(d.why) {
		c.fns[fname(f)] = true
		d.writes(f)
	}
}

func inNameOrder(m map[*ssa.Function]*ssa.Function) []*ssa.Function {
	var fs []*ssa.Function
	for f := range m {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool {
		if fname(fs[i]) != fname(fs[j]) {
			return fname(fs[i]) < fname(fs[j])
		}
		return fs[i].Pos() < fs[j].Pos()
	})
	return fs
}

// path shows how a function is reached.
func (d *determinism) path(f *ssa.Function) string {
	s := fname(f)
	for n := 0; d.why[f] != nil && n < 20; n++ {
		f = d.why[f]
		s = fname(f) + " -> " + s
	}
	return s
}

// --------------------------------------------------------------------- sources

// nondeterministic library functions: a reason, or "".
func sourceOf(n string) string {
	pkg, fn := n, ""
	if i := strings.LastIndex(n, "."); i >= 0 && !strings.HasPrefix(n, "(") {
		pkg, fn = n[:i], n[i+1:]
	}
	switch pkg {
	case "time":
		switch fn {
		case "Now", "Since", "Until", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker", "LoadLocation", "ParseInLocation":
			return "the clock or zone of the machine"
		}
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "github.com/google/uuid", "github.com/gofrs/uuid":
		return "randomness"
	case "os", "io/ioutil", "os/user", "path/filepath":
		switch fn {
		case "Exit", "IsNotExist", "IsExist", "IsPermission", "IsTimeout", "Join", "Base", "Dir", "Ext", "Clean", "Split", "ToSlash", "FromSlash", "Rel", "Match", "IsAbs", "Discard", "NopCloser", "ReadAll":
			return ""
		}
		return "the machine's environment or files"
	case "net", "net/http":
		return "the network"
	case "runtime", "runtime/debug", "runtime/metrics", "runtime/pprof", "expvar", "github.com/shirou/gopsutil":
		switch fn {
		case "KeepAlive", "Gosched", "GC":
			return ""
		}
		return "the state of the process"
	}
	switch {
	case strings.HasPrefix(n, "(*math/rand"), strings.HasPrefix(n, "(math/rand"), strings.HasPrefix(n, "(*net/http.Client)."), strings.HasPrefix(n, "(net."), strings.HasPrefix(n, "(*net."), strings.HasPrefix(n, "(*os."), strings.HasPrefix(n, "(hash/maphash"), strings.HasPrefix(n, "(*hash/maphash"):
		return "randomness, the network or files"
	case n == "(time.Time).Local":
		return "the zone of the machine"
	case strings.HasPrefix(n, "(reflect.Value)."):
		switch n[len("(reflect.Value)."):] {
		case "MapKeys", "MapRange":
			return "the order of a map"
		case "Pointer", "UnsafePointer", "UnsafeAddr":
			return "addresses of memory"
		}
	case n == "(google.golang.org/protobuf/reflect/protoreflect.Message).Range", n == "(google.golang.org/protobuf/reflect/protoreflect.Map).Range", n == "(*sync.Map).Range":
		return "the order of a map"
	case strings.HasPrefix(n, "(*google.golang.org/protobuf/reflect/protoregistry.") && strings.Contains(n, ").Range"):
		return "the order of a map"
	case strings.HasPrefix(n, "google.golang.org/protobuf/encoding/protojson."), strings.HasPrefix(n, "google.golang.org/protobuf/encoding/prototext."), strings.HasPrefix(n, "(google.golang.org/protobuf/encoding/protojson.MarshalOptions)"), strings.HasPrefix(n, "(google.golang.org/protobuf/encoding/prototext.MarshalOptions)"):
		if strings.Contains(n, ".Unmarshal") {
			return ""
		}
		return "an encoding that differs between builds"
	}
	return ""
}

func (d *determinism) sources(f *ssa.Function) {
	c := d.c
	c.Obl("sources")
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			at := c.P.pos(in.Pos())
			switch x := in.(type) {
			case *ssa.Go:
				c.Fail("concurrency:"+fname(f), at, "a goroutine is started while a block runs (%s)", d.path(f))
			case *ssa.Select:
				if len(x.States) > 1 || !x.Blocking {
					c.Fail("concurrency:"+fname(f), at, "which case of a select runs is not determined (%s)", d.path(f))
				}
			case *ssa.Convert:
				if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
					if st, ok := x.X.Type().Underlying().(*types.Basic); ok && st.Kind() == types.UnsafePointer && !d.diagnostic(x, 0) {
						c.Fail("source:"+fname(f), at, "an address of memory is used while a block runs (%s)", d.path(f))
					}
				}
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil {
					switch n := g.Pkg.Pkg.Path() + "." + g.Name(); n {
					case "time.Local", "os.Args", "crypto/rand.Reader":
						if !d.diagnostic(x, 0) {
							c.Fail("source:"+fname(f), at, "%s is used while a block runs (%s)", n, d.path(f))
						}
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				n := ""
				if cc.IsInvoke() {
					n = cc.Method.FullName()
				} else if g := cc.StaticCallee(); g != nil && !inRepoPath(fnPkgPath(g)) {
					n = fname(g)
				}
				why := sourceOf(n)
				if why == "" && pointerFormat(cc) {
					why = "an address of memory"
				}
				if why == "" {
					continue
				}
				if v, ok := in.(*ssa.Call); ok && d.diagnostic(v, 0) && why != "the order of a map" {
					continue
				}
				c.Fail("source:"+fname(f), at, "%s brings %s into what a block does (%s)", n, why, d.path(f))
			}
		}
	}
}

// pointerFormat: a formatting call which prints an address.
func pointerFormat(cc *ssa.CallCommon) bool {
	for _, a := range cc.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
			return true
		}
	}
	return false
}

// logs: the call only writes to a log.
func logs(n string) bool {
	for _, p := range []string{"k8s.io/klog/v2.", "k8s.io/klog.", "log.", "(*log.Logger).", "(k8s.io/klog/v2.Verbose).", "fmt.Print", "(github.com/tendermint/tendermint/libs/log.Logger)."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	if g := cc.StaticCallee(); g != nil {
		return fname(g)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

// diagnostic: the value only reaches logs, panics and the text of errors.
func (d *determinism) diagnostic(v ssa.Value, depth int) bool {
	if depth > 12 {
		return false
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, in := range *refs {
		if !d.diagnosticUse(v, in, depth) {
			return false
		}
	}
	return true
}

func (d *determinism) diagnosticUse(v ssa.Value, in ssa.Instruction, depth int) bool {
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Panic:
		return true
	case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert, *ssa.Slice, *ssa.Phi, *ssa.Extract, *ssa.Field, *ssa.Index:
		return d.diagnostic(x.(ssa.Value), depth+1)
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
			return d.diagnostic(x, depth+1)
		}
		return false
	case *ssa.UnOp:
		return x.Op == token.MUL && d.diagnostic(x, depth+1)
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return d.diagnostic(x.(ssa.Value), depth+1)
	case *ssa.Store:
		if x.Addr == v {
			return true // v is a place others are stored in
		}
		// through a local variable
		switch a := addrBase(x.Addr).(type) {
		case *ssa.Alloc:
			return d.diagnostic(a, depth+1)
		}
		return false
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b == v && !d.diagnostic(g.FreeVars[i], depth+1) {
				return false
			}
		}
		return true
	case *ssa.Return:
		for i, r := range x.Results {
			if r == v && !isErrorType(x.Parent().Signature.Results().At(i).Type()) {
				return false
			}
		}
		return true
	case ssa.CallInstruction:
		n := calleeName(x.Common())
		if logs(n) {
			return true
		}
		val, _ := in.(ssa.Value)
		switch {
		case strings.HasPrefix(n, "fmt.Errorf"), strings.HasPrefix(n, "errors."), strings.HasPrefix(n, "github.com/pkg/errors."):
			return true // the text of an error
		case strings.HasPrefix(n, "fmt.Sprint"), strings.HasPrefix(n, "(time."), strings.HasPrefix(n, "time."), strings.HasPrefix(n, "strings."), strings.HasPrefix(n, "strconv."), n == "(error).Error", n == "(fmt.Stringer).String", n == "builtin.len":
			return val != nil && d.diagnostic(val, depth+1)
		}
		// a function which only logs it
		if g := x.Common().StaticCallee(); g != nil && inRepoPath(fnPkgPath(g)) && len(g.Blocks) > 0 && len(g.Params) == len(x.Common().Args) {
			for i, a := range x.Common().Args {
				if a == v && !d.diagnostic(g.Params[i], depth+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func addrBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// ------------------------------------------------------------------- map order

func (d *determinism) ranges(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					d.mapRange(f, x)
				}
			case *ssa.Call:
				switch n := calleeName(&x.Call); n {
				case "(*github.com/scylladb/go-set/strset.Set).List":
					d.c.Obl("map-order")
					d.unorderedValue(f, x, nil, "the elements of a set")
				case "(*github.com/scylladb/go-set/strset.Set).Each", "(*github.com/scylladb/go-set/strset.Set).Pop", "(*github.com/scylladb/go-set/strset.Set).Pop2":
					d.c.Fail("map-order:"+fname(f), d.c.P.pos(x.Pos()), "%s takes elements in the order of a map (%s)", n, d.path(f))
				case "(*github.com/scylladb/go-set/strset.Set).String":
					if !d.diagnostic(x, 0) {
						d.c.Fail("map-order:"+fname(f), d.c.P.pos(x.Pos()), "the text of a set is in the order of a map (%s)", d.path(f))
					}
				}
			}
		}
	}
}

func (d *determinism) mapRange(f *ssa.Function, r *ssa.Range) {
	c := d.c
	at := c.P.pos(r.Pos())
	if at == "-" {
		at = c.P.pos(f.Pos())
	}
	bad := func(format string, a ...interface{}) {
		c.Fail("map-order:"+fname(f), at, "a loop over a map in %s %s (%s)", shortName(fname(f)), fmt.Sprintf(format, a...), d.path(f))
	}
	c.Obl("map-order")
	var header *ssa.BasicBlock
	var key, val ssa.Value
	for _, ref := range *r.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			header = n.Block()
			for _, e := range *n.Referrers() {
				if x, ok := e.(*ssa.Extract); ok {
					switch x.Index {
					case 1:
						key = x
					case 2:
						val = x
					}
				}
			}
		}
	}
	if header == nil {
		return
	}
	_ = val
	body := c.P.loopsOf(f)[header]
	if body == nil {
		// never continues: which element is met is random
		if key != nil || val != nil {
			bad("takes whichever element comes first")
		}
		return
	}
	inBody := func(b *ssa.BasicBlock) bool { return body[b] }
	// effects
	early := false
	for b := range body {
		if b != header {
			for _, s := range b.Succs {
				if !body[s] && !onlyPanics(s) {
					early = true
				}
			}
		}
	}
	var grown []ssa.Value
	lasting := false
	for _, b := range f.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				root := addrBase(x.Addr)
				if a, ok := root.(*ssa.Alloc); ok && inBody(a.Block()) {
					continue
				}
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					switch d.accumulates(x.Val, func(v ssa.Value) bool {
						u, ok := v.(*ssa.UnOp)
						return ok && u.Op == token.MUL && u.X == a
					}, 0) {
					case "append":
						grown = append(grown, a)
						lasting = true
						continue
					case "sum":
						lasting = true
						continue
					case "const":
						continue
					}
					bad("leaves what the last element gives in a variable")
					continue
				}
				// the next element of a slice of the function's own
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					switch y := ia.X.(type) {
					case *ssa.MakeSlice:
						grown = append(grown, y)
						lasting = true
						continue
					case *ssa.UnOp:
						if a, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
							grown = append(grown, a)
							lasting = true
							continue
						}
					}
				}
				bad("writes memory in an order that is not determined")
			case *ssa.MapUpdate:
				if m, ok := addrBase(x.Map).(ssa.Instruction); ok && inBody(m.Block()) {
					continue
				}
				lasting = true
				if unconvV(x.Key) == key {
					continue
				}
				if _, ok := x.Value.(*ssa.Const); ok {
					continue
				}
				if st, ok := x.Value.Type().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
					continue
				}
				bad("assigns map elements whose last value is not determined")
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer, *ssa.RunDefers:
				bad("has effects in an order that is not determined")
			case *ssa.Call:
				n := calleeName(&x.Call)
				switch {
				case setGrows(n):
					lasting = true
				case n == "builtin.delete" || n == "builtin.len" || n == "builtin.cap" || n == "builtin.append" || n == "builtin.copy" || logs(n):
				case !d.callFree(&x.Call):
					bad("calls %s, in an order that is not determined", shortName(n))
				}
			}
		}
	}
	for _, in := range header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range p.Edges {
			if !body[header.Preds[i]] {
				continue
			}
			switch d.accumulates(e, func(v ssa.Value) bool { return v == ssa.Value(p) }, 0) {
			case "self", "const":
			case "append":
				grown = append(grown, p)
				lasting = true
			case "sum":
				lasting = true
			default:
				bad("carries a value that depends on its order from one element to the next")
			}
		}
	}
	// what leaves the loop before its end
	if early && lasting {
		// a return of constants drops what was collected
		for b := range body {
			if b == header {
				continue
			}
			for _, s := range b.Succs {
				if !body[s] && !onlyPanics(s) && !returnsOnly(s) {
					bad("collects only some elements")
				}
			}
		}
	}
	for b := range body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if _, ok := v.(*ssa.Phi); ok && b == header {
				continue
			}
			for _, u := range *v.Referrers() {
				if body[u.Block()] {
					continue
				}
				if b == header && isOkOf(v) {
					continue
				}
				if !d.diagnosticUse(v, u, 0) {
					bad("hands out what one of the elements gives")
				}
			}
		}
	}
	consts := map[string]bool{}
	for b := range body {
		if b == header {
			continue
		}
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
				k := ""
				for i, x := range ret.Results {
					if !isErrorType(f.Signature.Results().At(i).Type()) {
						k += x.String() + ","
					}
				}
				consts[k] = true
			}
		}
	}
	if len(consts) > 1 {
		bad("returns different results for different elements, whichever comes first")
	}
	seen := map[ssa.Value]bool{}
	for _, g := range grown {
		if !seen[g] {
			seen[g] = true
			d.unorderedValue(f, g, body, "a slice filled in the order of a map")
		}
	}
}

// onlyStored: the element is written, not read.
func onlyStored(ia *ssa.IndexAddr) bool {
	for _, r := range *ia.Referrers() {
		if s, ok := r.(*ssa.Store); !ok || s.Addr != ssa.Value(ia) {
			return false
		}
	}
	return true
}

func isOkOf(v ssa.Value) bool {
	e, ok := v.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return false
	}
	_, ok = e.Tuple.(*ssa.Next)
	return ok
}

func onlyPanics(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

func returnsOnly(b *ssa.BasicBlock) bool {
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok {
		return false
	}
	for i, r := range ret.Results {
		if _, ok := r.(*ssa.Const); !ok && !isErrorType(b.Parent().Signature.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func unconvV(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

// accumulates tells how a value follows from the one before it: "self",
// "const", "append" to it, "sum" (of numbers, in any order), or "".
func (d *determinism) accumulates(v ssa.Value, prev func(ssa.Value) bool, depth int) string {
	if depth > 10 {
		return ""
	}
	if prev(v) {
		return "self"
	}
	join := func(a, b string) string {
		switch {
		case a == b:
			return a
		case a == "self" && b != "":
			return b
		case b == "self" && a != "":
			return a
		}
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "const"
	case *ssa.Phi:
		out := "self"
		for i, e := range x.Edges {
			k := d.accumulates(e, func(y ssa.Value) bool { return prev(y) || y == ssa.Value(x) }, depth+1)
			if i == 0 {
				out = k
			} else {
				out = join(out, k)
			}
		}
		return out
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			switch d.accumulates(x.Call.Args[0], prev, depth+1) {
			case "self", "append":
				return "append"
			}
		}
	case *ssa.BinOp:
		bt, ok := x.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
			return ""
		}
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			for i, o := range []ssa.Value{x.X, x.Y} {
				k := d.accumulates(o, prev, depth+1)
				if k == "self" || k == "sum" {
					if other := []ssa.Value{x.Y, x.X}[i]; d.accumulates(other, prev, depth+1) != "self" {
						return "sum"
					}
				}
			}
		case token.SUB:
			if k := d.accumulates(x.X, prev, depth+1); k == "self" || k == "sum" {
				return "sum"
			}
		}
	}
	return ""
}

// unorderedValue: a slice (or a variable holding it) whose order is that of a
// map is sorted before anything else uses its elements.
func (d *determinism) unorderedValue(f *ssa.Function, v ssa.Value, body map[*ssa.BasicBlock]bool, what string) {
	c := d.c
	if d.diagnostic(v, 0) {
		return
	}
	// the values that are the slice
	vals := map[ssa.Value]bool{}
	var uses []ssa.Instruction
	of := map[ssa.Instruction]ssa.Value{}
	var walk func(x ssa.Value)
	walk = func(x ssa.Value) {
		if vals[x] {
			return
		}
		vals[x] = true
		if x.Referrers() == nil {
			return
		}
		for _, in := range *x.Referrers() {
			if body != nil && body[in.Block()] {
				// within the loop only grown
				if s, ok := in.(*ssa.Call); ok && calleeName(&s.Call) == "builtin.append" {
					continue
				}
				if _, ok := in.(*ssa.UnOp); ok {
					continue
				}
				if _, ok := in.(*ssa.Store); ok {
					continue
				}
				if ia, ok := in.(*ssa.IndexAddr); ok && onlyStored(ia) {
					continue
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
			}
			switch y := in.(type) {
			case *ssa.Slice:
				if y.Low == nil && y.High == nil {
					walk(y)
					continue
				}
			case *ssa.ChangeType, *ssa.MakeInterface, *ssa.Phi:
				walk(y.(ssa.Value))
				continue
			case *ssa.UnOp:
				if y.Op == token.MUL {
					walk(y)
					continue
				}
			case *ssa.Store:
				if y.Addr == x {
					continue
				}
				if a, ok := y.Addr.(*ssa.Alloc); ok {
					walk(a)
					continue
				}
			case *ssa.DebugRef:
				continue
			case *ssa.Call:
				if calleeName(&y.Call) == "builtin.append" {
					walk(y)
					continue
				}
			case *ssa.MakeClosure:
				continue // a comparison for sorting; its reads have no effect
			}
			uses = append(uses, in)
			of[in] = x
		}
	}
	walk(v)
	var sorts []ssa.Instruction
	for _, in := range uses {
		if cl, ok := in.(*ssa.Call); ok && d.sorts(f, &cl.Call) {
			sorts = append(sorts, in)
		}
	}
	sorted := func(in ssa.Instruction) bool {
		for _, s := range sorts {
			if s == in || s.Block() == in.Block() && before(s, in) || s.Block() != in.Block() && s.Block().Dominates(in.Block()) {
				return true
			}
		}
		return false
	}
	for _, in := range uses {
		if sorted(in) {
			continue
		}
		if cl, ok := in.(*ssa.Call); ok {
			n := calleeName(&cl.Call)
			switch {
			case n == "builtin.len" || n == "builtin.cap" || n == "github.com/scylladb/go-set/strset.New" || strings.HasSuffix(n, "strset.Set).Add") || strings.HasSuffix(n, "strset.Set).Has") || strings.HasSuffix(n, "strset.Set).Remove"):
				continue
			}
		}
		if ret, ok := in.(*ssa.Return); ok {
			_ = ret
			if !d.unordered[f] {
				d.unordered[f] = true
				d.queued = append(d.queued, f)
			}
			continue
		}
		if d.diagnosticUse(of[in], in, 0) {
			continue
		}
		at := c.P.pos(in.Pos())
		if at == "-" {
			at = c.P.pos(f.Pos())
		}
		c.Fail("map-order:"+fname(f), at, "%s is used without being sorted in %s (%s)", what, shortName(fname(f)), d.path(f))
		return
	}
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// callersOf: a function returns a slice in the order of a map.
func (d *determinism) callersOf(g *ssa.Function) {
	for _, f := range inNameOrder(d.why) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				hit := ci.Call.StaticCallee() == g
				if !hit && ci.Call.IsInvoke() {
					for _, t := range d.c.P.implementers(ci.Call.Value.Type()) {
						if m := d.c.methodFor(t, ci.Call.Method.Name()); m != nil && (m == g || unwrap(d.c.P, m) == g) {
							hit = true
						}
					}
				}
				if !hit {
					continue
				}
				what := "the result of " + shortName(fname(g)) + ", in the order of a map,"
				if g.Signature.Results().Len() == 1 {
					d.unorderedValue(f, ci, nil, what)
					continue
				}
				for _, r := range *ci.Referrers() {
					if e, ok := r.(*ssa.Extract); ok {
						if _, ok := e.Type().Underlying().(*types.Slice); ok {
							d.unorderedValue(f, e, nil, what)
						}
					}
				}
			}
		}
	}
}

// sorts: the call puts a slice into an order that only its elements decide.
func (d *determinism) sorts(f *ssa.Function, cc *ssa.CallCommon) bool {
	switch n := calleeName(cc); n {
	case "sort.Strings", "sort.Ints", "sort.Float64s":
		return true
	case "sort.Sort", "sort.Stable":
		if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
			switch mi.X.Type().String() {
			case "sort.StringSlice", "sort.IntSlice", "sort.Float64Slice":
				return true
			}
			if m := d.c.methodFor(mi.X.Type(), "Less"); m != nil {
				return d.decides(m)
			}
		}
	case "sort.Slice", "sort.SliceStable":
		if g := closureFn(cc.Args[1]); g != nil {
			return d.decides(g)
		}
	default:
		if strings.HasPrefix(n, "slices.Sort[") || n == "slices.Sort" {
			return true
		}
	}
	return false
}

func closureFn(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	case *ssa.ChangeType:
		return closureFn(x.X)
	}
	return nil
}

// decides: the comparison orders elements by something that identifies them.
func (d *determinism) decides(less *ssa.Function) bool {
	n := len(less.Params)
	if n < 2 {
		return false
	}
	i, j := mk("param", less.Params[n-2].Name(), nil), mk("param", less.Params[n-1].Name(), nil)
	cfg := Cfg{Pure: func(n string) bool {
		return strings.HasSuffix(n, ").GetName") || strings.HasSuffix(n, ").String") || strings.HasSuffix(n, ").Name") || strings.HasSuffix(n, ").FullName") || n == "strings.Compare" || n == "bytes.Compare"
	}, NoDevirt: true}
	total := false
	for _, p := range d.c.run(less, cfg) {
		if p.Outcome != "return" {
			return false
		}
		t := deepStrip(p.Ret[0])
		if t.Op != "lt" || len(t.A) != 2 {
			return false
		}
		a, b := t.A[0], t.A[1]
		if a.Op == "call" && (a.S == "strings.Compare" || a.S == "bytes.Compare") && b == mkInt(0) {
			a, b = a.A[len(a.A)-2], a.A[len(a.A)-1]
		}
		if swapped := replaceTerm(replaceTerm(replaceTerm(a, i, mk("tmp", "", nil)), j, i), mk("tmp", "", nil), j); swapped != b {
			return false
		}
		if identifies(a, i, j) {
			total = true
			continue
		}
		if v, k := decideIn(p.facts, mk("eq", "", nil, a, b)); !k || v {
			return false
		}
	}
	return total
}

// identifies: the term is the element itself, a field of it, or its name.
func identifies(a, i, j *T) bool {
	for {
		switch {
		case a.Op == "elem" || a.Op == "index":
			return a.A[1] == i || a.A[1] == j
		case a.Op == "field" || a.Op == "deref" || a.Op == "conv" || a.Op == "load":
			a = a.A[0]
		case a.Op == "call" && len(a.A) == 1:
			a = a.A[0]
		default:
			return false
		}
	}
}

func replaceTerm(t, old, new *T) *T {
	if t == old {
		return new
	}
	if t == nil || len(t.A) == 0 {
		return t
	}
	as := make([]*T, len(t.A))
	diff := false
	for i, a := range t.A {
		as[i] = replaceTerm(a, old, new)
		diff = diff || as[i] != a
	}
	if !diff {
		return t
	}
	n := mk(t.Op, t.S, t.Typ, as...)
	if n.X == nil {
		n.X = t.X
	}
	return n
}

// ------------------------------------------------------------------ effect-free

// callFree: the call changes nothing that outlives it.
func (d *determinism) callFree(cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	if cc.IsInvoke() {
		if !inRepoPath(pkgOf(cc.Method)) {
			return libFree(n)
		}
		ts := d.c.P.implementers(cc.Value.Type())
		for _, t := range ts {
			if m := d.c.methodFor(t, cc.Method.Name()); m == nil || !d.effectFree(m) {
				return false
			}
		}
		return len(ts) > 0
	}
	g := cc.StaticCallee()
	if g == nil {
		_, ok := cc.Value.(*ssa.Builtin)
		return ok
	}
	if !inRepoPath(fnPkgPath(g)) {
		return libFree(n)
	}
	return d.effectFree(g)
}

func libFree(n string) bool {
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "strings.", "strconv.", "bytes.", "errors.", "math.", "unicode", "path.", "(error).", "(fmt.Stringer).", "google.golang.org/protobuf/proto.MessageName", "google.golang.org/protobuf/proto.Equal", "google.golang.org/protobuf/proto.Size", "crypto/sha256.Sum256", "encoding/hex."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if logs(n) {
		return true
	}
	if strings.HasPrefix(n, "(google.golang.org/protobuf/reflect/protoreflect.") {
		m := n[strings.LastIndex(n, ".")+1:]
		for _, w := range []string{"Set", "Clear", "Mutable", "Range", "Append", "Truncate", "AppendMutable"} {
			if m == w {
				return false
			}
		}
		return true
	}
	return strings.HasPrefix(n, "(*github.com/scylladb/go-set/strset.Set).Has") || strings.HasSuffix(n, "strset.Set).Size") || strings.HasSuffix(n, "strset.Set).IsEmpty")
}

func (d *determinism) effectFree(f *ssa.Function) bool {
	switch d.free[f] {
	case 1:
		return true
	case 2:
		return false
	case 3:
		return true // recursion
	}
	d.free[f] = 3
	ok := f.Blocks != nil || d.c.P.generatedPB(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, local := addrBase(x.Addr).(*ssa.Alloc); !local {
					ok = false
				}
			case *ssa.MapUpdate:
				if _, local := x.Map.(*ssa.MakeMap); !local {
					ok = false
				}
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer:
				ok = false
			case *ssa.Call:
				if !d.callFree(&x.Call) {
					ok = false
				}
			}
		}
	}
	if d.c.P.generatedPB(f) {
		ok = true
	}
	if ok {
		d.free[f] = 1
	} else {
		d.free[f] = 2
	}
	return ok
}

// -------------------------------------------------------------------- encodings

// hasMap: a type contains maps, at any depth.
func hasMap(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch x := t.Underlying().(type) {
	case *types.Map:
		return true
	case *types.Pointer:
		return hasMap(x.Elem(), seen)
	case *types.Slice:
		return hasMap(x.Elem(), seen)
	case *types.Array:
		return hasMap(x.Elem(), seen)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if x.Field(i).Exported() && hasMap(x.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// encodings: a message whose encoding is kept is encoded deterministically.
func (d *determinism) encodings(f *ssa.Function) {
	c := d.c
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			n := calleeName(&call.Call)
			opts := strings.HasPrefix(n, "(google.golang.org/protobuf/proto.MarshalOptions).Marshal")
			if !opts && !strings.HasSuffix(n, "protobuf/proto.Marshal") && !strings.HasSuffix(n, "protobuf/proto.MarshalAppend") {
				continue
			}
			c.Obl("encoding")
			args := call.Call.Args
			msg := args[len(args)-1]
			if len(args) >= 2 && strings.HasSuffix(n, "MarshalOptions).Marshal") {
				msg = args[1]
			}
			if d.diagnostic(call, 0) || decodedAgain(call) {
				continue
			}
			if !d.mapsIn(msg) {
				continue
			}
			if opts && d.deterministicOpts(f, call) {
				continue
			}
			c.Fail("encoding:"+fname(f), c.P.pos(call.Pos()), "%s encodes messages which may have map fields without asking for a deterministic encoding (%s)", shortName(n), d.path(f))
		}
	}
}

// decodedAgain: the encoding is only decoded.
func decodedAgain(call *ssa.Call) bool {
	for _, r := range *call.Referrers() {
		e, ok := r.(*ssa.Extract)
		if !ok {
			return false
		}
		if e.Index != 0 {
			continue
		}
		for _, u := range *e.Referrers() {
			cl, ok := u.(*ssa.Call)
			if !ok || !strings.Contains(calleeName(&cl.Call), "Unmarshal") {
				return false
			}
		}
	}
	return true
}

// mapsIn: the message may have map fields.
func (d *determinism) mapsIn(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		break
	}
	t := v.Type()
	if !types.IsInterface(t) {
		return hasMap(t, map[types.Type]bool{})
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !inRepoPath(n.Obj().Pkg().Path()) || strings.HasSuffix(n.Obj().Pkg().Path(), "core/meta") {
		return true // any message
	}
	for _, x := range d.c.P.implementers(t) {
		if hasMap(x, map[types.Type]bool{}) {
			return true
		}
	}
	return false
}

func (d *determinism) deterministicOpts(f *ssa.Function, call *ssa.Call) bool {
	n := fname(call.Call.StaticCallee())
	found, good := false, true
	for _, p := range d.c.run(f, Cfg{Impure: func(x string) bool { return x == n }, Opaque: func(string) bool { return true }, Generic: true, LoopK: 1}) {
		for _, e := range p.Events {
			if e.Fn != n || e.CallI != &call.Call {
				continue
			}
			found = true
			o := deepStrip(e.Deep[0])
			if o.Op == "gval" || o.Op == "global" {
				if v := d.c.initialValue(o.S); v != nil {
					o = v
				}
			}
			det := field(o, "Deterministic")
			if det == nil {
				good = false
				continue
			}
			v, k := deepStrip(det).boolVal()
			good = good && v && k
		}
	}
	return found && good
}

// ------------------------------------------------------------ long-lived memory

// longLived: the types of values that the application keeps between calls.
func (d *determinism) longLived() {
	d.long = map[*types.Named]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		switch x := t.(type) {
		case *types.Pointer:
			add(x.Elem())
			return
		case *types.Slice:
			add(x.Elem())
			return
		case *types.Map:
			add(x.Elem())
			return
		case *types.Named:
			if x.Obj().Pkg() == nil || !inRepoPath(x.Obj().Pkg().Path()) || d.long[x] {
				return
			}
			if types.IsInterface(x) {
				d.long[x] = true
				for _, y := range d.c.P.implementers(x) {
					add(y)
				}
				return
			}
			if types.Implements(types.NewPointer(x), d.c.protoMessage()) {
				return
			}
			d.long[x] = true
			add(x.Underlying())
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				add(x.Field(i).Type())
			}
		}
	}
	for _, t := range d.c.abciApps() {
		add(t)
	}
	for _, m := range d.c.system().Mods {
		add(m.Type)
		for _, h := range m.H {
			add(h.Typ)
		}
		if ct, _ := boxed(m.Auth); ct != nil {
			add(ct)
		}
	}
}

// protoMessage is the interface of protobuf messages.
func (c *Ctx) protoMessage() *types.Interface {
	for _, pk := range c.P.Pkgs {
		for p, i := range pk.Imports {
			if p == "google.golang.org/protobuf/reflect/protoreflect" {
				if tn, ok := i.Types.Scope().Lookup("ProtoMessage").(*types.TypeName); ok {
					return tn.Type().Underlying().(*types.Interface)
				}
			}
		}
	}
	return types.NewInterfaceType(nil, nil)
}

// writes: nothing the application keeps outside of the store is written.
func (d *determinism) writes(f *ssa.Function) {
	c := d.c
	if strings.HasSuffix(fnPkgPath(f), "/runtime/kv") {
		return // the store itself
	}
	c.Obl("memory")
	check := func(in ssa.Instruction, place ssa.Value, what string) {
		if why := d.shared(f, place, 0, map[ssa.Value]bool{}); why != "" {
			at := c.P.pos(in.Pos())
			c.Fail("memory:"+fname(f), at, "%s: %s outlives the call, and is not in the store (%s)", what, why, d.path(f))
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					check(in, x.Addr, "memory is written")
				}
			case *ssa.MapUpdate:
				check(in, x.Map, "a map is written")
			case *ssa.Call:
				n := calleeName(&x.Call)
				switch {
				case n == "builtin.delete":
					check(in, x.Call.Args[0], "a map is written")
				case strings.HasPrefix(n, "sync/atomic.") && !strings.HasPrefix(n, "sync/atomic.Load"), strings.HasPrefix(n, "(*sync/atomic.") && !strings.HasSuffix(n, ").Load"), strings.HasPrefix(n, "(*sync.Map).") && !strings.HasSuffix(n, ").Load"), strings.HasPrefix(n, "(*sync.Once)."), strings.HasPrefix(n, "(*sync.Pool)."),
					strings.HasPrefix(n, "(*container/"), strings.HasPrefix(n, "(*github.com/scylladb/go-set/strset.Set).") && !libFree(n) && mutatesSet(n), strings.HasPrefix(n, "(*bytes.Buffer).Write"), strings.HasPrefix(n, "(*strings.Builder).Write"), strings.HasPrefix(n, "(*math/big.Int).") && x.Call.Signature().Results().Len() == 1 && setsBig(n):
					check(in, x.Call.Args[0], shortName(n))
				case n == "builtin.copy":
					check(in, x.Call.Args[0], "memory is written")
				}
			}
		}
	}
}

// setGrows: the call changes a set by elements, in whatever order.
func setGrows(n string) bool {
	return strings.HasSuffix(n, "strset.Set).Add") || strings.HasSuffix(n, "strset.Set).Remove") || strings.HasSuffix(n, "strset.Set).Merge") || strings.HasSuffix(n, "strset.Set).Separate")
}

func mutatesSet(n string) bool {
	switch n[strings.LastIndex(n, ".")+1:] {
	case "Add", "Remove", "Clear", "Merge", "Separate", "Pop", "Pop2":
		return true
	}
	return false
}

func setsBig(n string) bool {
	switch n[strings.LastIndex(n, ".")+1:] {
	case "Cmp", "CmpAbs", "Sign", "BitLen", "Bytes", "Int64", "Uint64", "IsInt64", "IsUint64", "String", "Text", "Bit", "TrailingZeroBits", "ProbablyPrime", "FillBytes", "Append", "Format", "Bits":
		return false
	}
	return true
}

// shared tells whether a place belongs to something kept between calls: what,
// or "".
func (d *determinism) shared(f *ssa.Function, v ssa.Value, depth int, seen map[ssa.Value]bool) string {
	if depth > 30 || seen[v] {
		return ""
	}
	seen[v] = true
	named := func(t types.Type) *types.Named {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, _ := t.(*types.Named)
		return n
	}
	switch x := v.(type) {
	case *ssa.Global:
		return "the variable " + shortName(x.String())
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const, *ssa.MakeClosure, *ssa.Lookup, *ssa.Function:
		return ""
	case *ssa.FieldAddr:
		n := named(x.X.Type())
		w := d.shared(f, x.X, depth+1, seen)
		if w != "" {
			return w
		}
		_ = n
		return ""
	case *ssa.Field:
		return d.shared(f, x.X, depth+1, seen)
	case *ssa.IndexAddr:
		return d.shared(f, x.X, depth+1, seen)
	case *ssa.Slice:
		return d.shared(f, x.X, depth+1, seen)
	case *ssa.ChangeType:
		return d.shared(f, x.X, depth+1, seen)
	case *ssa.TypeAssert:
		return d.shared(f, x.X, depth+1, seen)
	case *ssa.MakeInterface:
		return d.shared(f, x.X, depth+1, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := d.shared(f, e, depth+1, seen); w != "" {
				return w
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		if a, ok := addrBase(x.X).(*ssa.Alloc); ok {
			// what was stored in the local variable, or the field of it
			fld := -1
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				fld = fa.Field
			}
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					if w := d.shared(f, s.Val, depth+1, seen); w != "" {
						return w
					}
				}
				if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == fld {
					for _, r := range *fa.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
							if w := d.shared(f, s.Val, depth+1, seen); w != "" {
								return w
							}
						}
					}
				}
			}
			return ""
		}
		// a reference read from something: shared if that is, except that
		// an error value or a message is not written through its variable
		return d.shared(f, x.X, depth+1, seen)
	case *ssa.FreeVar:
		for _, g := range d.c.P.allFuncs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(f) {
						for i, fv := range f.FreeVars {
							if fv == x {
								if _, in := d.why[g]; in {
									if w := d.shared(g, m.Bindings[i], depth+1, seen); w != "" {
										return w
									}
								}
							}
						}
					}
				}
			}
		}
	case *ssa.Parameter:
		n := named(x.Type())
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		// the receiver of a method called through an interface, or of one of
		// the entry points, is kept
		if idx == 0 && f.Signature.Recv() != nil && n != nil && d.long[n] && !d.onlyStatic(f) {
			return "the " + n.Obj().Name() + " it is a method of"
		}
		for g := range d.why {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() != f || idx < 0 || idx >= len(ci.Common().Args) {
						continue
					}
					if w := d.shared(g, ci.Common().Args[idx], depth+1, seen); w != "" {
						return w
					}
				}
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && inRepoPath(fnPkgPath(g)) {
			return d.sharedResult(g, depth, seen)
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			if g := cl.Call.StaticCallee(); g != nil && inRepoPath(fnPkgPath(g)) {
				return d.sharedResult(g, depth, seen)
			}
		}
	}
	return ""
}

func (d *determinism) sharedResult(g *ssa.Function, depth int, seen map[ssa.Value]bool) string {
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				switch r.Type().Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Slice:
					if w := d.shared(g, r, depth+1, seen); w != "" {
						return w
					}
				}
			}
		}
	}
	return ""
}

// onlyStatic: the method is called directly only, by functions that run.
func (d *determinism) onlyStatic(f *ssa.Function) bool {
	from := d.why[f]
	if from == nil {
		return false
	}
	for g := range d.why {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != f.Name() {
					continue
				}
				for _, t := range d.c.P.implementers(ci.Common().Value.Type()) {
					if m := d.c.methodFor(t, f.Name()); m != nil && (m == f || unwrap(d.c.P, m) == f) {
						return false
					}
				}
			}
		}
	}
	return true
}
