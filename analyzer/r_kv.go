package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "All paths of the database adapter are enumerated, running the functions handed to the database in line. Writes must be committed in the transaction they were made in and every error be fatal; a read returns a copy of the stored bytes, and absence only when the database says so; iterators seek the requested start, go forward, stay inside the prefix and release iterator and transaction in that order. Every function which obtains an iterator or transaction must release it or hand it to its caller on every path.", c27)
}

const (
	bdgDB   = "(*github.com/dgraph-io/badger/v3.DB)."
	bdgTxn  = "(*github.com/dgraph-io/badger/v3.Txn)."
	bdgItem = "(*github.com/dgraph-io/badger/v3.Item)."
	bdgIter = "(*github.com/dgraph-io/badger/v3.Iterator)."
)

// pathCalls lists the called functions of a path that satisfy pred.
func (p *Path) callsLike(pred func(string) bool) (out []*Event) {
	for _, e := range p.Events {
		if e.Kind == "call" && pred(e.Fn) {
			out = append(out, e)
		}
	}
	return
}

func isBadger(n string) bool { return strings.Contains(n, "dgraph-io/badger/v3.") }

func isBadgerWrite(n string) bool {
	switch strings.TrimPrefix(n, bdgTxn) {
	case "Set", "SetEntry", "Delete":
		return strings.HasPrefix(n, bdgTxn)
	}
	if strings.HasPrefix(n, bdgDB) {
		switch strings.TrimPrefix(n, bdgDB) {
		case "View", "Update", "NewTransaction", "NewTransactionAt":
			return false
		}
		return true
	}
	return strings.HasPrefix(n, "(*github.com/dgraph-io/badger/v3.WriteBatch)") || strings.HasPrefix(n, "(*github.com/dgraph-io/badger/v3.StreamWriter)")
}

// someFailure: some database call is known to have failed on the path.
func someFailure(p *Path) bool {
	for _, e := range p.callsLike(isBadger) {
		if len(e.Res) > 0 && isErrType(e.Res[len(e.Res)-1].Typ) && e.failedIn(p.facts) {
			return true
		}
	}
	return false
}

func isErrType(t types.Type) bool { return t != nil && types.TypeString(t, nil) == "error" }

func c27(c *Ctx) {
	it := c.P.named("runtime/kv", "KV")
	if it == nil {
		c.Fail("anchor:KV", "-", "the KV interface was not found")
		return
	}
	n := 0
	for _, t := range c.P.implementers(it) {
		n++
		c.kvWrite(t, "Set")
		c.kvWrite(t, "Delete")
		c.kvRead(t, "Get")
		c.kvRead(t, "Has")
		c.kvIterate(t, "Iterate")
		c.kvIterate(t, "IteratePrefix")
	}
	c.Check(n > 0, "kv", "implementations", "-", "no KV implementation was found")
	// a database that could not be opened is not used
	opened := map[*ssa.Function]bool{}
	for _, cs := range c.P.callSites(func(n string) bool { return strings.HasPrefix(n, "github.com/dgraph-io/badger/v3.Open") }) {
		f := cs.In
		if opened[f] || strings.Contains(fnPkgPath(f), "testdata") {
			continue
		}
		opened[f] = true
		for _, p := range c.run(f, Cfg{}) {
			if p.Outcome != "return" {
				continue
			}
			facts := p.facts
			if rs := f.Signature.Results(); rs.Len() > 0 && isErrType(rs.At(rs.Len()-1).Type()) {
				var ok bool
				if facts, ok = p.success(); !ok {
					continue
				}
			}
			for _, e := range p.callsLike(func(n string) bool { return strings.HasPrefix(n, "github.com/dgraph-io/badger/v3.Open") }) {
				c.Check(e.okIn(facts), "kv-opened", fname(f), e.Pos, "a database is used although opening it may have failed")
			}
		}
	}
	c.Check(len(opened) > 0, "kv-opened", "database", "-", "no database is opened")
	c.released()
}

func (c *Ctx) kvMethod(t types.Type, m string) *ssa.Function {
	f := c.P.methodOf(t, m)
	if f == nil {
		c.Fail("anchor:"+m, "-", "%s.%s not found", tname(t), m)
	}
	return f
}

func (c *Ctx) kvWrite(t types.Type, m string) {
	f := c.kvMethod(t, m)
	if f == nil {
		return
	}
	a := c.params(f)
	okAny := false
	for _, p := range c.run(f, Cfg{}) {
		if p.Outcome == "panic" {
			c.Check(someFailure(p), "kv-write-possible", fname(f), p.Pos, "%s panics although no database operation failed", fname(f))
			continue
		}
		okAny = true
		ws := p.callsLike(isBadgerWrite)
		if !c.Check(len(ws) == 1 && ws[0].Fn == bdgTxn+m, "kv-write", fname(f), p.Pos, "%s makes %d changes", fname(f), len(ws)) {
			continue
		}
		w := ws[0]
		good := same(w.Args[1], a[1])
		if m == "Set" {
			good = good && len(w.Args) == 3 && same(w.Args[2], a[2])
		}
		c.Check(good, "kv-write", fname(f), w.Pos, "%s does not write the given key and value: %v", fname(f), w.Deep)
		c.Check(w.okIn(p.facts), "kv-write-error", fname(f), p.Pos, "%s returns although the write may have failed", fname(f))
		committed := false
		for _, e := range p.calls(bdgTxn + "Commit") {
			if same(e.Args[0], w.Args[0]) && e.Seq > w.Seq && e.okIn(p.facts) {
				committed = true
				for _, d := range p.calls(bdgTxn + "Discard") {
					if same(d.Args[0], w.Args[0]) && d.Seq < e.Seq {
						committed = false
					}
				}
			}
		}
		c.Check(committed, "kv-write-commit", fname(f), p.Pos, "%s returns although its change may not be committed", fname(f))
	}
	c.Check(okAny, "kv-write-possible", fname(f), c.P.pos(f.Pos()), "%s never returns", fname(f))
}

func (c *Ctx) kvRead(t types.Type, m string) {
	f := c.kvMethod(t, m)
	if f == nil {
		return
	}
	a := c.params(f)
	found, absent := false, false
	for _, p := range c.run(f, Cfg{}) {
		ws := p.callsLike(isBadgerWrite)
		c.Check(len(ws) == 0, "kv-read-writes-nothing", fname(f), p.Pos, "%s writes", fname(f))
		if p.Outcome == "panic" {
			c.Check(someFailure(p), "kv-read-possible", fname(f), p.Pos, "%s panics although no database operation failed", fname(f))
			continue
		}
		r := p.Ret[len(p.Ret)-1]
		ex, k := decideIn(p.facts, deepStrip(r))
		if !k {
			// the result may be a comparison with the error
			c.Fail("kv-read:"+fname(f), p.Pos, "%s reports %v", fname(f), r)
			continue
		}
		gets := p.calls(bdgTxn + "Get")
		if !c.Check(len(gets) == 1 && same(gets[0].Args[1], a[1]), "kv-read", fname(f), p.Pos, "%s does not look up the given key", fname(f)) {
			continue
		}
		g := gets[0]
		if !ex {
			absent = true
			isAbs := false
			for fa, v := range p.facts {
				if !v {
					continue
				}
				var er, target *T
				if fa.Op == "call" && strings.HasSuffix(fa.S, "errors.Is") && len(fa.A) == 2 {
					er, target = fa.A[0], fa.A[1]
				} else if fa.Op == "eq" {
					er, target = fa.A[0], fa.A[1]
					if er.Op != "res" {
						er, target = target, er
					}
				}
				if er != nil && strings.HasSuffix(target.S, "badger/v3.ErrKeyNotFound") {
					for _, e := range p.callsLike(isBadger) {
						if len(e.Res) > 0 && same(e.Res[len(e.Res)-1], er) {
							isAbs = true
						}
					}
				}
			}
			c.Check(isAbs, "kv-absent", fname(f), p.Pos, "%s reports a key as absent although the database does not say so", fname(f))
			continue
		}
		found = true
		c.Check(g.okIn(p.facts), "kv-present", fname(f), p.Pos, "%s reports a key as present although the lookup may have failed", fname(f))
		if m != "Get" {
			continue
		}
		v := deepStrip(p.Ret[0])
		cp := false
		for _, e := range p.calls(bdgItem + "ValueCopy") {
			if same(e.Res[0], v) && same(e.Args[0], g.Res[0]) && e.Args[1].isNil() && e.okIn(p.facts) {
				cp = true
			}
		}
		c.Check(cp, "kv-value", fname(f), p.Pos, "%s returns %v, which is not a copy of the stored value", fname(f), v)
	}
	c.Check(found, "kv-read-possible", fname(f), c.P.pos(f.Pos()), "%s never finds a key", fname(f))
	c.Check(absent, "kv-read-possible", fname(f), c.P.pos(f.Pos()), "%s never reports a key as absent", fname(f))
}

func (c *Ctx) kvIterate(t types.Type, m string) {
	f := c.kvMethod(t, m)
	if f == nil {
		return
	}
	a := c.params(f)
	okAny := false
	for _, p := range c.run(f, Cfg{}) {
		if p.Outcome != "return" {
			c.Check(someFailure(p), "kv-iterate-possible", fname(f), p.Pos, "%s panics", fname(f))
			continue
		}
		okAny = true
		txs := p.calls(bdgDB + "NewTransaction")
		its := p.calls(bdgTxn + "NewIterator")
		sks := p.calls(bdgIter + "Seek")
		if !c.Check(len(txs) == 1 && len(its) == 1 && same(its[0].Args[0], txs[0].Res[0]), "kv-iterate", fname(f), p.Pos, "%s does not open one iterator", fname(f)) {
			continue
		}
		o := its[0].Deep[1]
		forward := o.Op == "global" || o.Op == "gval" || o.Op == "deref"
		forward = forward && strings.Contains(o.String(), "badger/v3.DefaultIteratorOptions")
		if r := field(o, "Reverse"); r != nil {
			b, k := deepStrip(r).boolVal()
			av, ak := true, false
			if x := field(o, "AllVersions"); x != nil {
				av, ak = deepStrip(x).boolVal()
			}
			pf := field(o, "Prefix")
			pk := pf == nil || deepStrip(pf).isNil() || m == "IteratePrefix" && same(pf, a[1]) || contains(pf, o) || strings.Contains(pf.String(), "DefaultIteratorOptions")
			if k {
				forward = !b && (ak && !av) && pk
			}
		}
		c.Check(forward, "kv-iterate-options", fname(f), its[0].Pos, "the iterator's options are %v", o)
		last := false
		for i, e := range sks {
			last = i == len(sks)-1 && same(e.Args[1], a[1]) && same(e.Args[0], its[0].Res[0])
		}
		for _, e := range p.callsLike(func(n string) bool { return n == bdgIter+"Rewind" || n == bdgIter+"Next" }) {
			last = last && len(sks) > 0 && e.Seq < sks[len(sks)-1].Seq
		}
		c.Check(last, "kv-iterate-start", fname(f), p.Pos, "the iterator does not start at the requested key")
		c.kvIterator(p, f, its[0].Res[0], txs[0].Res[0], a, m == "IteratePrefix")
	}
	c.Check(okAny, "kv-iterate-possible", fname(f), c.P.pos(f.Pos()), "%s never returns", fname(f))
}

// runOn runs a method of a value a path produced, from the end of that path.
func (c *Ctx) runOn(p *Path, val *T, name string, cfg Cfg) []*Path {
	ct, raw := boxed(val)
	if ct == nil {
		c.Fail("undecided:"+name, p.Pos, "value %v has no known type", val)
		return nil
	}
	f := c.methodFor(ct, name)
	if f == nil || f.Blocks == nil {
		c.Fail("undecided:"+name, p.Pos, "method %s of %s not found", name, tname(ct))
		return nil
	}
	st := p.st.clone()
	st.events = nil
	st.flist = nil
	st.frames = nil
	st.facts = map[*T]bool{}
	e := c.P.engine(cfg)
	args := e.params(f)
	args[0] = raw
	return c.runFrom(st, f, args, cfg)
}

func (c *Ctx) kvIterator(p *Path, f *ssa.Function, iter, txn *T, a []*T, prefix bool) {
	it := p.Ret[0]
	nm := fname(f) + " iterator"
	// Valid
	for _, q := range c.runOn(p, it, "Valid", Cfg{}) {
		if !c.Check(q.Outcome == "return", "kv-iterator-valid", nm, q.Pos, "Valid panics") {
			continue
		}
		v, k := decideIn(q.facts, deepStrip(q.Ret[0]))
		inside, ik, low := false, false, false
		for _, e := range q.Events {
			if e.Kind != "call" || !strings.HasPrefix(e.Fn, bdgIter+"Valid") || !same(e.Args[0], iter) {
				continue
			}
			switch e.Fn {
			case bdgIter + "ValidForPrefix":
				if !same(e.Args[1], a[1]) {
					c.Fail("kv-iterator-valid:"+nm, e.Pos, "validity is tested for the prefix %v", e.Deep[1])
				}
				if same(q.Ret[0], e.Res[0]) {
					k, v, ik, inside = true, true, true, true
				} else {
					inside, ik = decideIn(q.facts, deepStrip(e.Res[0]))
				}
			case bdgIter + "Valid":
				if same(q.Ret[0], e.Res[0]) && !prefix {
					k, v, ik, inside = true, true, true, true
				} else {
					low, _ = decideIn(q.facts, deepStrip(e.Res[0]))
					if !low {
						inside, ik = false, true
					}
				}
			}
		}
		if !ik && low && !k {
			// the result is a comparison: it has to agree with the range
			// whichever way it goes
			at, neg := deepStrip(q.Ret[0]), false
			for at.Op == "not" {
				at, neg = at.A[0], !neg
			}
			agree := true
			for _, b := range []bool{true, false} {
				facts := map[*T]bool{at: b != neg}
				for x, y := range q.facts {
					facts[x] = y
				}
				in, known := c.insideBound(facts, a, prefix)
				agree = agree && known && in == b
			}
			c.Check(agree, "kv-iterator-valid", nm, q.Pos, "Valid reports %v, which is not whether the current key is in range", q.Ret[0])
			continue
		}
		if !ik && low {
			inside, ik = c.insideBound(q.facts, a, prefix)
		}
		c.Check(k && ik && v == inside, "kv-iterator-valid", nm, q.Pos, "Valid reports %v although it is %v (known: %v) that the current key is in range", q.Ret[0], inside, ik)
	}
	// Next
	for _, q := range c.runOn(p, it, "Next", Cfg{}) {
		ns := q.calls(bdgIter + "Next")
		if q.Outcome == "panic" {
			bad := false
			for fa, v := range q.facts {
				bad = bad || !v && fa.Op == "res" && strings.HasPrefix(fa.S, "Valid") || v && fa.Op == "eq" && !prefix
				bad = bad || v && fa.Op == "lt" && !prefix
			}
			c.Check(bad, "kv-iterator-next", nm, q.Pos, "Next panics although the iterator is valid")
			continue
		}
		c.Check(len(ns) == 1 && same(ns[0].Args[0], iter), "kv-iterator-next", nm, q.Pos, "Next does not advance by one")
	}
	// Key, Value
	for _, q := range c.runOn(p, it, "Key", Cfg{}) {
		if !c.Check(q.Outcome == "return", "kv-iterator-key", nm, q.Pos, "Key panics") {
			continue
		}
		r := deepStrip(q.RetDeep[0])
		from := int64(0)
		var cut *T
		if r.Op == "slice" {
			cut = r.A[1]
			if n, ok := cut.intVal(); ok {
				from = n
				cut = nil
			}
			if !r.A[2].isNil() {
				from = -1
			}
			r = r.A[0]
		}
		if r.Op == "call" && strings.HasSuffix(r.S, "bytes.TrimPrefix") && prefix && r.A[1] == deepStrip(a[1]) {
			cut = mk("len", "", nil, deepStrip(a[1]))
			r = r.A[0]
		}
		isKey := false
		for _, e := range q.Events {
			if e.Kind == "call" && (e.Fn == bdgItem+"Key" || e.Fn == bdgItem+"KeyCopy" && e.Args[1].isNil()) && same(e.Res[0], r) {
				for _, i := range q.calls(bdgIter + "Item") {
					isKey = isKey || same(e.Args[0], i.Res[0]) && same(i.Args[0], iter)
				}
			}
		}
		want := cut == nil && from == 0
		if prefix {
			want = cut != nil && isLen(cut) == deepStrip(a[1])
		}
		c.Check(isKey && want, "kv-iterator-key", nm, q.Pos, "Key returns %v", q.RetDeep[0])
	}
	for _, q := range c.runOn(p, it, "Value", Cfg{}) {
		if q.Outcome == "panic" {
			c.Check(someFailure(q), "kv-iterator-value", nm, q.Pos, "Value panics although the database did not fail")
			continue
		}
		isVal := false
		for _, e := range q.calls(bdgItem + "ValueCopy") {
			if same(e.Res[0], q.Ret[0]) && e.okIn(q.facts) && e.Args[1].isNil() {
				for _, i := range q.calls(bdgIter + "Item") {
					isVal = isVal || same(e.Args[0], i.Res[0]) && same(i.Args[0], iter)
				}
			}
		}
		c.Check(isVal, "kv-iterator-value", nm, q.Pos, "Value returns %v, not a copy of the current value", q.Ret[0])
	}
	// Close
	for _, q := range c.runOn(p, it, "Close", Cfg{}) {
		cl, di := -1, -1
		for _, e := range q.Events {
			if e.Kind != "call" {
				continue
			}
			if e.Fn == bdgIter+"Close" && same(e.Args[0], iter) {
				cl = e.Seq
			}
			if (e.Fn == bdgTxn+"Discard" || e.Fn == bdgTxn+"Commit") && same(e.Args[0], txn) {
				di = e.Seq
			}
		}
		c.Check(q.Outcome == "return" && cl >= 0 && di > cl, "kv-iterator-close", nm, q.Pos, "Close does not close the iterator and then end its transaction")
	}
}

// insideBound: a valid iterator is compared with the end of the range or
// prefix.
func (c *Ctx) insideBound(facts map[*T]bool, a []*T, prefix bool) (bool, bool) {
	for fa, v := range facts {
		if prefix {
			if fa.Op == "call" && strings.HasSuffix(fa.S, "bytes.HasPrefix") && fa.A[1] == deepStrip(a[1]) {
				return v, true
			}
			continue
		}
		end := deepStrip(a[2])
		// no end: everything is inside
		if e, k := lenZeroIn(facts, end); k && e {
			return true, true
		}
		if fa.A == nil || len(fa.A) < 2 {
			continue
		}
		x := fa.A[0]
		y := fa.A[1]
		cmp, n, swapped := x, y, false
		if y.Op == "call" {
			cmp, n, swapped = y, x, true
		}
		if cmp.Op != "call" || !strings.HasSuffix(cmp.S, "bytes.Compare") || len(cmp.A) != 2 {
			continue
		}
		k, ok := n.intVal()
		if !ok {
			continue
		}
		keyFirst := cmp.A[1] == end
		if !keyFirst && cmp.A[0] != end {
			continue
		}
		// the end is part of the range
		sign := int64(1)
		if !keyFirst {
			sign = -1
		}
		switch {
		case fa.Op == "eq" && k == sign:
			return !v, true
		case fa.Op == "lt" && swapped && sign == 1 && k == 0:
			return !v, true
		case fa.Op == "lt" && !swapped && sign == 1 && k == 1:
			return v, true
		case fa.Op == "lt" && !swapped && sign == -1 && k == 0:
			return !v, true
		}
	}
	return false, false
}

func lenZeroIn(facts map[*T]bool, x *T) (bool, bool) {
	for f, v := range facts {
		if f.Op == "eq" && f.A[0].Op == "len" && f.A[0].A[0] == x && f.A[1].intIs(0) {
			return v, true
		}
		if f.Op == "lt" && f.A[0].intIs(0) && f.A[1].Op == "len" && f.A[1].A[0] == x {
			return !v, true
		}
	}
	return false, false
}

// released: iterators and transactions are released by whoever obtains them.
func (c *Ctx) released() {
	fns := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if f.Blocks == nil || f.Synthetic != "" || strings.HasSuffix(c.P.file(f), "_test.go") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if isResource(call.Common().Signature().Results()) {
					fns[f] = true
				}
			}
		}
	}
	n := 0
	for _, f := range sortedFns(fns) {
		n++
		for _, p := range c.run(f, Cfg{Inline: func(g *ssa.Function) bool { return g == f || g.Parent() == f || closes(g) }, MaxPaths: 20000}) {
			if p.Outcome != "return" {
				continue
			}
			for _, e := range p.Events {
				if e.Kind != "call" || e.CallI == nil || !isResource(e.CallI.Signature().Results()) {
					continue
				}
				if e.failedIn(p.facts) && len(e.Res) > 1 {
					continue
				}
				c.Obl("released")
				done := false
				for _, x := range p.Events {
					if x.Kind != "call" || x.Seq < e.Seq {
						continue
					}
					i := strings.LastIndex(x.Fn, ".")
					switch x.Fn[i+1:] {
					case "Close", "Discard", "Commit":
						var r *T
						if x.DRecv != nil {
							r = x.DRecv
						} else if len(x.Deep) > 0 {
							r = x.Deep[0]
						}
						done = done || r != nil && contains(r, e.Res[0])
					}
				}
				for _, r := range p.RetDeep {
					done = done || contains(r, e.Res[0])
				}
				if !done {
					c.Fail("released:"+fname(f)+" "+e.Fn, e.Pos, "%s neither releases nor returns what %s returned (path returning at %s)", fname(f), e.Fn, p.Pos)
				}
			}
		}
	}
	c.Check(n > 0, "released", "users", "-", "no user of iterators was found")
}

func closes(g *ssa.Function) bool {
	if g.Name() == "Close" || g.Parent() != nil {
		return true
	}
	// the error of an error
	if ps, rs := g.Signature.Params(), g.Signature.Results(); ps.Len() == 1 && rs.Len() == 1 && isErrorType(ps.At(0).Type()) && isErrorType(rs.At(0).Type()) {
		return true
	}
	for i := 0; i < g.Signature.Params().Len(); i++ {
		if isResource(types.NewTuple(g.Signature.Params().At(i))) {
			return true
		}
	}
	return isResource(g.Signature.Results())
}

// isResource: the first result must be released.
func isResource(tp *types.Tuple) bool {
	if tp == nil || tp.Len() == 0 {
		return false
	}
	switch types.TypeString(tp.At(0).Type(), func(p *types.Package) string { return p.Path() }) {
	case "*github.com/dgraph-io/badger/v3.Txn", "*github.com/dgraph-io/badger/v3.Iterator", modPath + "/runtime/kv.Iterator", modPath + "/runtime/orm.Iterator", modPath + "/runtime/client.ObjectIterator", modPath + "/core/runtime/client.ObjectIterator":
		return true
	}
	n, ok := tp.At(0).Type().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !inRepoPath(n.Obj().Pkg().Path()) {
		return false
	}
	if !strings.HasSuffix(n.Obj().Name(), "Iterator") {
		return false
	}
	ms := types.NewMethodSet(n)
	return ms.Lookup(n.Obj().Pkg(), "Close") != nil
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if fname(out[i]) != fname(out[j]) {
			return fname(out[i]) < fname(out[j])
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}
