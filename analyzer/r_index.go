package main

import (
	"go/types"
	"strings"
)

const (
	fnObjCreate = "(runtime/orm.ObjectsStore).Create"
	fnObjGet    = "(runtime/orm.ObjectsStore).Get"
	fnObjUpdate = "(runtime/orm.ObjectsStore).Update"
	fnObjDelete = "(runtime/orm.ObjectsStore).Delete"
	fnIndex     = "(runtime/orm.Indexer).Index"
	fnClear     = "(runtime/orm.Indexer).ClearIndexes"
	fnIdxList   = "(runtime/orm.Indexer).List"
	fnRegGet    = "(*runtime/orm/schema.Registry).Get"
)

func opaqueRegGet(n string) bool { return n == fnRegGet }

func c17(c *Ctx) {
	c.ormSteps()
	it := c.P.named("runtime/orm", "Indexer")
	if it == nil {
		c.Fail("anchor:Indexer", "-", "the indexer interface was not found")
		return
	}
	n := 0
	for _, t := range c.P.implementers(it) {
		n++
		list := c.indexEntries(t)
		if list != nil {
			c.clearing(t, list)
		}
	}
	c.Check(n > 0, "indexers", "implementations", "-", "no indexer was found")
}

// ormSteps: the order of object writes and index maintenance.
func (c *Ctx) ormSteps() {
	want := map[string][]string{
		"Create": {fnObjCreate, fnIndex},
		"Update": {fnObjUpdate, fnClear, fnIndex},
		"Delete": {fnObjDelete, fnClear},
	}
	for _, m := range sortedKeys(want) {
		f := c.method("runtime/orm", "Store", m)
		if f == nil {
			continue
		}
		obj := c.params(f)[1]
		okAny := false
		for _, p := range c.run(f, Cfg{Opaque: opaqueRegGet}) {
			if p.Outcome != "return" {
				continue
			}
			var steps []*Event
			var got *Event
			for _, e := range p.Events {
				if e.Kind != "call" {
					c.Check(e.Kind != "go", "orm-steps", fname(f), e.Pos, "index maintenance runs concurrently")
					continue
				}
				switch {
				case e.Fn == fnRegGet:
					got = e
				case strings.HasPrefix(e.Fn, "(runtime/orm.ObjectsStore)."), strings.HasPrefix(e.Fn, "(runtime/orm.Indexer)."):
					steps = append(steps, e)
				}
			}
			facts, ok := p.success()
			if !ok {
				failed := got != nil && got.failedIn(p.facts)
				for _, e := range steps {
					failed = failed || e.failedIn(p.facts)
				}
				c.Check(failed, "orm-failure", fname(f), p.Pos, "%s fails although no step failed", fname(f))
			}
			if ok {
				okAny = true
				var names []string
				for _, e := range steps {
					names = append(names, e.Fn)
				}
				if !c.Check(len(steps) == len(want[m]) && inOrder2(names, want[m]), "orm-steps", fname(f), p.Pos, "%s succeeds after %v instead of %v", fname(f), names, want[m]) {
					continue
				}
				if !c.Check(got != nil && got.okIn(facts) && same(got.Args[len(got.Args)-1], obj), "orm-schema", fname(f), p.Pos, "%s succeeds although the object's schema was not found", fname(f)) {
					continue
				}
				for _, e := range steps {
					c.Check(same(e.Args[0], got.Res[0]), "orm-schema", fname(f)+" "+e.Fn, e.Pos, "%s uses the schema %v", e.Fn, e.Args[0])
					c.Check(same(e.Args[1], obj), "orm-object", fname(f)+" "+e.Fn, e.Pos, "%s is handed %v instead of the object", e.Fn, e.Args[1])
					c.Check(e.okIn(facts), "orm-step-error", fname(f)+" "+e.Fn, e.Pos, "%s succeeds although %s may have failed", fname(f), e.Fn)
				}
				continue
			}
			// failing: nothing is attempted after a failed step
			for i, e := range steps {
				if i+1 < len(steps) {
					c.Check(!e.failedIn(p.facts), "orm-step-error", fname(f)+" "+e.Fn, e.Pos, "%s goes on after %s failed", fname(f), e.Fn)
				}
			}
			c.Check(len(steps) <= len(want[m]), "orm-steps", fname(f), p.Pos, "extra steps")
			for i, e := range steps {
				if i < len(want[m]) {
					c.Check(e.Fn == want[m][i], "orm-steps", fname(f), e.Pos, "%s is called where %s is expected", e.Fn, want[m][i])
				}
			}
		}
		c.Check(okAny, "orm-possible", fname(f), c.P.pos(f.Pos()), "%s never succeeds", fname(f))
	}
}

// ormGet: an object is read from the object store with the schema of its type.
func (c *Ctx) ormGet() {
	f := c.method("runtime/orm", "Store", "Get")
	if f == nil {
		return
	}
	a := c.params(f)
	n := 0
	for _, p := range c.run(f, Cfg{Opaque: opaqueRegGet}) {
		if !c.Check(p.Outcome == "return", "orm-get", fname(f), p.Pos, "reading an object panics") {
			continue
		}
		rg, og := p.calls(fnRegGet), p.calls(fnObjGet)
		facts, ok := p.success()
		if !ok {
			c.Check(len(rg) == 1 && rg[0].failedIn(p.facts) || len(og) == 1 && og[0].failedIn(p.facts), "orm-get", fname(f), p.Pos, "reading an object fails although no step failed")
			continue
		}
		n++
		if !c.Check(len(rg) == 1 && len(og) == 1 && rg[0].okIn(facts) && og[0].okIn(facts), "orm-get", fname(f), p.Pos, "reading an object succeeds although a step may have failed") {
			continue
		}
		c.Check(same(rg[0].Args[len(rg[0].Args)-1], a[2]) && same(og[0].Args[0], rg[0].Res[0]) && same(og[0].Args[1], a[1]) && same(og[0].Args[2], a[2]), "orm-get", fname(f), og[0].Pos, "what is read is not the object asked for")
	}
	c.Check(n > 0, "orm-get", fname(f), c.P.pos(f.Pos()), "no object can be read")
}

func inOrder2(a, b []string) bool { return strings.Join(a, ",") == strings.Join(b, ",") }

// entryShape: constant byte, type name, index name, field value, primary key.
// Everything but the primary key must be delimited.
func (c *Ctx) entryShape(ps []piece, sch, obj *T) (lead byte, shape string, idx, val, pk *T, why string) {
	ps = norm(ps)
	pre, rest := leadBytes(ps)
	if len(pre) < 1 {
		return 0, "", nil, nil, nil, "it does not start with a constant: " + piecesStr(ps)
	}
	n := 3
	if len(rest) == 4 {
		n = 4
	}
	if len(rest) != n {
		return 0, "", nil, nil, nil, "it does not consist of type name, index name, value and primary key: " + piecesStr(ps)
	}
	for _, x := range rest[:3] {
		if x.kind != "lenval" {
			return 0, "", nil, nil, nil, "a part is not preceded by its length, so entries of different indexes can be confused: " + piecesStr(ps)
		}
		shape += x.kind + ","
	}
	if !schCall(rest[0].t, "TypePrefix") || rest[0].t.A[0] != sch {
		return 0, "", nil, nil, nil, "the first part is not the type name: " + rest[0].t.String()
	}
	if !idxCall(rest[1].t, "Prefix") {
		return 0, "", nil, nil, nil, "the second part is not the index name: " + rest[1].t.String()
	}
	if n == 4 {
		if rest[3].kind != "val" {
			return 0, "", nil, nil, nil, "the primary key is not the rest of the entry"
		}
		pk = rest[3].t
	}
	return pre[0], pre + "|" + shape, rest[1].t.A[0], rest[2].t, pk, ""
}

type listFormat struct {
	lead  int  // constant bytes
	count bool // number of entries
}

// indexEntries checks Index and returns the format of the list of entries.
func (c *Ctx) indexEntries(t types.Type) *listFormat {
	f := c.P.methodOf(t, "Index")
	if f == nil {
		c.Fail("anchor:Index", "-", "%s.Index not found", tname(t))
		return nil
	}
	a := c.params(f)
	sch, obj := deepStrip(a[1]), deepStrip(a[2])
	has := mk("call", schPfx+"HasIndexes", types.Typ[types.Bool], sch)
	all := mk("call", schPfx+"Indexes", nil, sch)
	var format *listFormat
	indexed := false
	for _, p := range c.run(f, Cfg{Pure: pureSchema}) {
		sets, dels, other := kvCalls(p)
		c.Check(len(other) == 0 && len(dels) == 0, "index-kv-only", fname(f), p.Pos, "indexing deletes entries or reaches the database around the KV interface")
		facts, ok := p.success()
		hv, hk := decideIn(p.facts, findCall(p, schPfx+"HasIndexes", has))
		col := findCall(p, schPfx+"Indexes", all)
		idx, done := elems(p.facts, col)
		if hk && hv && done && len(idx) == 0 {
			continue // HasIndexes says that there are some (C19)
		}
		if !ok {
			// allowed only when an entry exists already
			dup := false
			for _, e := range p.calls(kvHas) {
				if v, k := decideIn(p.facts, deepStrip(e.Res[0])); k && v {
					_, _, ix, val, pk, why := c.entryShape(pieces(e.Deep[0]), sch, obj)
					dup = dup || why == "" && pk != nil && ix != nil && val != nil
				}
			}
			c.Check(dup, "index-failure", fname(f), p.Pos, "indexing an object fails although none of its entries exists")
			continue
		}
		if p.Outcome != "return" {
			continue
		}
		if hk && !hv {
			c.Check(len(sets) == 0, "index-none", fname(f), p.Pos, "an object without indexes is indexed")
			continue
		}
		if !c.Check(hk || done, "index-all", fname(f), p.Pos, "indexing succeeds without looking at the schema's indexes") {
			continue
		}
		_ = facts
		if !c.Check(done, "index-all", fname(f), p.Pos, "indexing succeeds before all indexes of the schema were visited") {
			continue
		}
		indexed = true
		var listEv *Event
		found := map[*T]*T{} // index -> entry
		for _, e := range sets {
			key := e.Deep[0]
			lead, _, ix, val, pk, why := c.entryShape(pieces(key), sch, obj)
			if why != "" {
				_, lpk, why2 := objKeyShape(pieces(key), sch)
				if c.Check(why2 == "" && listEv == nil, "index-key", fname(f), e.Pos, "an index entry has an unexpected form: %s", why) {
					listEv = e
					c.Check(isEncPK(lpk, sch, obj), "index-list-key", fname(f), e.Pos, "the list of entries is stored for %v", lpk)
				}
				continue
			}
			c.Check(!nameByte(lead), "index-namespace", fname(f), e.Pos, "index entries start with %q, with which a list of entries can start too", string([]byte{lead}))
			c.Check(isEncPK(pk, sch, obj), "index-entry-key", fname(f), e.Pos, "an index entry leads to %v instead of the object's primary key", pk)
			c.Check(idxCall(val, "MustEncodeFromObject") && val.A[0] == ix && val.A[1] == obj, "index-entry-value", fname(f), e.Pos, "the value indexed is %v instead of the indexed field of the object", val)
			found[ix] = deepStrip(key)
		}
		for _, i := range idx {
			el := deepStrip(mkElem(col, i, nil))
			c.Check(found[el] != nil, "index-all", fname(f), p.Pos, "index %v of the schema gets no entry", el)
		}
		if !c.Check(listEv != nil, "index-list", fname(f), p.Pos, "no list of the object's index entries is stored") {
			continue
		}
		ps := norm(pieces(listEv.Deep[1]))
		lead, rest := leadBytes(ps)
		fm := listFormat{lead: len(lead)}
		if len(rest) == 0 && len(lead) > 0 {
			rest = nil
		}
		// the count may be a constant, encoded as a varint
		if len(rest) > 0 && rest[0].kind == "varint" {
			n, k := rest[0].t.intVal()
			c.Check(k && n == int64(len(found)) || isLen(rest[0].t) != nil && same(isLen(rest[0].t), col), "index-list", fname(f), listEv.Pos, "the list of entries claims to have %v entries, not %d", rest[0].t, len(found))
			fm.count = true
			rest = rest[1:]
		}
		listed := map[*T]bool{}
		for _, x := range rest {
			if c.Check(x.kind == "lenval", "index-list", fname(f), listEv.Pos, "the list of entries has a part which is not delimited: %s", x) {
				listed[deepStrip(x.t)] = true
			}
		}
		for _, k := range found {
			c.Check(listed[k], "index-list", fname(f), listEv.Pos, "an index entry is missing in the list used for clearing")
		}
		c.Check(len(listed) == len(found) && len(rest) == len(found), "index-list", fname(f), listEv.Pos, "the list has %d entries for %d index entries", len(rest), len(found))
		if format != nil && *format != fm {
			c.Fail("index-list:"+fname(f), listEv.Pos, "lists are encoded in different ways")
		}
		format = &fm
	}
	c.Check(indexed, "index-possible", fname(f), c.P.pos(f.Pos()), "no object is ever indexed")
	return format
}

// findCall returns the term for a pure call as the path knows it (with its
// type), or the given one.
func findCall(p *Path, fn string, dflt *T) *T {
	var r *T
	see := func(t *T) {
		if r == nil && t != nil {
			r = findTerm(deepStrip(t), func(x *T) bool { return x.Op == "call" && x.S == fn })
		}
	}
	for f := range p.facts {
		see(f)
	}
	if r == nil {
		for _, e := range p.Events {
			for _, a := range e.Deep {
				see(a)
			}
		}
	}
	if r == nil {
		return dflt
	}
	return r
}

func isEncPK(t, sch, obj *T) bool {
	return schCall(t, "EncodePrimaryKey") && t.A[0] == sch && t.A[1] == obj
}

func nameByte(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_'
}

// clearing: every listed entry and then the list is deleted.
func (c *Ctx) clearing(t types.Type, fm *listFormat) {
	f := c.P.methodOf(t, "ClearIndexes")
	if f == nil {
		c.Fail("anchor:ClearIndexes", "-", "%s.ClearIndexes not found", tname(t))
		return
	}
	a := c.params(f)
	sch, obj := deepStrip(a[1]), deepStrip(a[2])
	cleared := false
	for _, p := range c.run(f, Cfg{Pure: pureSchema, LoopK: 2}) {
		sets, dels, other := kvCalls(p)
		c.Check(len(other) == 0 && len(sets) == 0, "clear-kv-only", fname(f), p.Pos, "clearing writes entries or reaches the database around the KV interface")
		_, ok := p.success()
		hv, hk := decideIn(p.facts, findCall(p, schPfx+"HasIndexes", mk("call", schPfx+"HasIndexes", types.Typ[types.Bool], sch)))
		if hk && !hv {
			c.Check(ok && len(dels) == 0, "clear-none", fname(f), p.Pos, "clearing the indexes of an object that has none fails or deletes something")
			continue
		}
		gets := p.calls(kvGet)
		if len(gets) == 0 {
			c.Check(!ok, "clear-list", fname(f), p.Pos, "clearing succeeds without reading the list of entries")
			continue
		}
		get := gets[0]
		_, pk, why := objKeyShape(pieces(get.Deep[0]), sch)
		c.Check(len(gets) == 1 && why == "" && isEncPK(pk, sch, obj), "clear-list-key", fname(f), get.Pos, "the list of entries is read from %v", get.Deep[0])
		ex, k := decideIn(p.facts, deepStrip(get.Res[1]))
		if k && !ex {
			c.Check(!ok && len(dels) == 0, "clear-missing-list", fname(f), p.Pos, "clearing succeeds although the list of entries is missing")
			continue
		}
		// infeasible for a list as written by Index
		w := walkList(p, get.Res[0], fm)
		if w.impossible {
			continue
		}
		if !c.Check(ok, "clear-failure", fname(f), p.Pos, "clearing fails for a list as it was written") {
			continue
		}
		if p.Outcome != "return" {
			continue
		}
		cleared = true
		c.Check(k, "clear-missing-list", fname(f), p.Pos, "clearing succeeds although the list of entries may be missing")
		if !c.Check(w.done, "clear-all", fname(f), p.Pos, "clearing succeeds before the end of the list was reached: %s", w.why) {
			continue
		}
		del := map[*T]bool{}
		lst := false
		for _, e := range dels {
			del[deepStrip(e.Deep[0])] = true
			lst = lst || same(e.Deep[0], get.Deep[0])
		}
		for _, it := range w.items {
			c.Check(del[it], "clear-all", fname(f), p.Pos, "a listed index entry is not deleted: %v", it)
		}
		c.Check(lst, "clear-list", fname(f), p.Pos, "the list of entries is not deleted")
		c.Check(len(del) == len(w.items)+1, "clear-only", fname(f), p.Pos, "clearing deletes %d keys for %d entries", len(del), len(w.items))
	}
	c.Check(cleared, "clear-possible", fname(f), c.P.pos(f.Pos()), "indexes are never cleared")
}

type walk struct {
	items      []*T
	done       bool
	impossible bool
	why        string
}

// walkList reads the list the way the path does, knowing that it is well formed.
func walkList(p *Path, list *T, fm *listFormat) (w walk) {
	for f, v := range p.facts {
		if f.Op == "call" && strings.HasSuffix(f.S, "protowire.ParseError") && v {
			w.impossible = true
		}
		if f.Op == "eq" && f.A[1].isNil() && f.A[0].Op == "call" && strings.HasSuffix(f.A[0].S, "protowire.ParseError") {
			// ParseError is nil exactly for lengths which are not negative
			if ng, k := decideIn(p.facts, mkLtZero(f.A[0].A[0])); k && ng == v {
				w.impossible = true
			}
		}
		if f.Op == "lt" && f.A[1].intIs(0) && v && f.A[0].Op == "call" && strings.Contains(f.A[0].S, "protowire.Consume") {
			w.impossible = true
		}
	}
	for _, e := range p.Events {
		if e.Kind == "call" && e.Fn == kvDelete && len(e.Res) > 0 {
			if v, k := decideIn(p.facts, deepStrip(e.Res[0])); k && !v {
				w.impossible = true
			}
		}
	}
	if w.impossible {
		return
	}
	cur := deepStrip(list)
	next := func(n *T) { cur = sliceFrom(p, cur, n) }
	if fm.lead > 0 {
		next(mkInt(int64(fm.lead)))
	}
	var count *T
	if fm.count {
		cn := consume(p, "ConsumeVarint", cur)
		if cn == nil {
			w.why = "the number of entries is not read"
			return
		}
		count = mk("call", cn.S+"#0", nil, cur)
		next(mk("call", cn.S+"#1", nil, cur))
	}
	for n := 0; n < 4; n++ {
		empty, ek := lenZero(p, cur)
		more, mk_ := moreThan(p, count, n)
		if ek && mk_ && empty == more {
			w.impossible = true
			return
		}
		if ek && empty || mk_ && !more {
			w.done = true
			return
		}
		cb := consume(p, "ConsumeBytes", cur)
		if cb == nil {
			w.why = "entry " + itoa(n) + " is not read"
			return
		}
		w.items = append(w.items, callTerm(p, cb.S+"#0", cur))
		next(mk("call", cb.S+"#1", nil, cur))
	}
	return
}

func mkLtZero(x *T) *T { return mk("lt", "", types.Typ[types.Bool], x, mkInt(0)) }

func (t *T) intIs(n int64) bool {
	v, ok := t.intVal()
	return ok && v == n
}

// termsOf visits the terms of a path.
func termsOf(p *Path, pred func(*T) bool) *T {
	for f := range p.facts {
		if r := findTerm(deepStrip(f), pred); r != nil {
			return r
		}
	}
	for _, e := range p.Events {
		for _, a := range e.Deep {
			if r := findTerm(deepStrip(a), pred); r != nil {
				return r
			}
		}
	}
	return nil
}

func sameShape(a, b *T) bool { return a != nil && b != nil && a.String() == b.String() }

func sliceFrom(p *Path, base, n *T) *T {
	r := termsOf(p, func(x *T) bool {
		return x.Op == "slice" && x.A[0] == base && len(x.A) > 2 && (x.A[1] == n || sameShape(x.A[1], n)) && x.A[2].isNil()
	})
	if r == nil {
		return mk("slice", "", base.Typ, base, n)
	}
	return r
}

func callTerm(p *Path, s string, a *T) *T {
	r := termsOf(p, func(x *T) bool { return x.Op == "call" && x.S == s && len(x.A) == 1 && x.A[0] == a })
	if r == nil {
		return mk("call", s, nil, a)
	}
	return r
}

// consume finds a protowire read at the cursor; S is returned without suffix.
func consume(p *Path, name string, cur *T) *T {
	r := termsOf(p, func(x *T) bool {
		return x.Op == "call" && strings.Contains(x.S, "protowire."+name+"#") && len(x.A) == 1 && x.A[0] == cur
	})
	if r == nil {
		return nil
	}
	return &T{S: r.S[:strings.LastIndex(r.S, "#")]}
}

func lenZero(p *Path, cur *T) (bool, bool) {
	for f, v := range p.facts {
		if f.Op == "eq" && f.A[0].Op == "len" && f.A[0].A[0] == cur && f.A[1].intIs(0) {
			return v, true
		}
		if f.Op == "lt" && f.A[0].intIs(0) && f.A[1].Op == "len" && f.A[1].A[0] == cur {
			return !v, true
		}
	}
	return false, false
}

// moreThan: does the path know whether the list has more than n entries?
func moreThan(p *Path, count *T, n int) (bool, bool) {
	if count == nil {
		return false, false
	}
	isCount := func(t *T) bool {
		for t.Op == "conv" {
			t = t.A[0]
		}
		return t.Op == "call" && t.S == count.S && t.A[0] == count.A[0]
	}
	// the loop indices in the order of the iterations
	var ind *T
	for f := range p.facts {
		if f.Op == "lt" && isCount(f.A[1]) {
			x := f.A[0]
			for x.Op == "bin" {
				x = x.A[0]
			}
			if x.Op == "ind" {
				ind = x
			}
		}
	}
	for f, v := range p.facts {
		if f.Op != "lt" || !isCount(f.A[1]) {
			continue
		}
		switch x := f.A[0]; {
		case x.intIs(int64(n)):
			return v, true
		case n == 1 && x == ind:
			return v, true
		case n == 2 && x.Op == "bin" && x.S == "+" && x.A[0] == ind && x.A[1].intIs(1):
			return v, true
		}
	}
	return false, false
}

// ---------------------------------------------------------------- listing

func c20(c *Ctx) {
	c.ormList()
	it := c.P.named("runtime/orm", "Indexer")
	if it != nil {
		for _, t := range c.P.implementers(it) {
			c.indexList(t)
		}
	}
}

// ormList: the store lists with the object's schema and the given options, and
// the iterator reads objects by the listed primary keys.
func (c *Ctx) ormList() {
	f := c.method("runtime/orm", "Store", "List")
	if f == nil {
		return
	}
	a := c.params(f)
	okAny := false
	for _, p := range c.run(f, Cfg{Opaque: opaqueRegGet}) {
		if p.Outcome != "return" {
			continue
		}
		facts, ok := p.success()
		ls := p.calls(fnIdxList)
		gs := p.calls(fnRegGet)
		if !ok {
			continue
		}
		okAny = true
		if !c.Check(len(ls) == 1 && len(gs) == 1 && gs[0].okIn(facts) && ls[0].okIn(facts), "orm-list", fname(f), p.Pos, "a listing succeeds although the schema or the listing failed") {
			continue
		}
		c.Check(same(gs[0].Args[len(gs[0].Args)-1], a[1]) && same(ls[0].Args[0], gs[0].Res[0]), "orm-list", fname(f), p.Pos, "a listing uses the schema %v", ls[0].Args[0])
		c.Check(same(ls[0].Deep[1], a[2]), "orm-list-options", fname(f), p.Pos, "a listing uses the options %v instead of those given", ls[0].Deep[1])
		// the iterator handed out is over the listed keys
		c.Check(contains(p.RetDeep[0], ls[0].Res[0]), "orm-list-iterator", fname(f), p.Pos, "the iterator returned is not over the listed keys")
	}
	c.Check(okAny, "orm-list", fname(f), c.P.pos(f.Pos()), "listing never succeeds")
	g := c.method("runtime/orm", "Iterator", "Get")
	if g == nil {
		return
	}
	b := c.params(g)
	okAny = false
	for _, p := range c.run(g, Cfg{Opaque: opaqueRegGet}) {
		if p.Outcome != "return" {
			continue
		}
		facts, ok := p.success()
		if !ok {
			continue
		}
		okAny = true
		ks := p.calls("(runtime/kv.Iterator).Key")
		gs := p.calls(fnObjGet)
		if !c.Check(len(ks) == 1 && len(gs) == 1, "iterator-get", fname(g), p.Pos, "an object is read without using the current key") {
			continue
		}
		c.Check(same(gs[0].Args[2], b[1]) && gs[0].okIn(facts), "iterator-get", fname(g), p.Pos, "reading through an iterator does not read into the target")
		id := findTerm(deepStrip(gs[0].Deep[1]), func(x *T) bool { return x == deepStrip(ks[0].Res[0]) })
		c.Check(id != nil && bytesID(gs[0].Args[1]), "iterator-get", fname(g), p.Pos, "the object read is %v, not the current one", gs[0].Deep[1])
	}
	c.Check(okAny, "iterator-get", fname(g), c.P.pos(g.Pos()), "reading through an iterator never succeeds")
	// the other operations of the iterator are those of the key iterator
	for _, m := range []string{"Next", "Valid", "Close"} {
		h := c.method("runtime/orm", "Iterator", m)
		if h == nil {
			continue
		}
		for _, p := range c.run(h, Cfg{}) {
			cs := p.calls("(runtime/kv.Iterator)." + m)
			n := 0
			for _, e := range p.Events {
				if e.Kind == "call" {
					n++
				}
			}
			c.Check(p.Outcome == "return" && len(cs) == 1 && n == 1, "iterator-forwards", fname(h), p.Pos, "%s does not (only) call %s of the key iterator", fname(h), m)
			if m == "Valid" && len(cs) == 1 && len(p.Ret) == 1 {
				v, k := decideIn(p.facts, deepStrip(cs[0].Res[0]))
				r, rk := decideIn(p.facts, deepStrip(p.Ret[0]))
				c.Check(same(p.Ret[0], cs[0].Res[0]) || k && rk && r == v, "iterator-forwards", fname(h), p.Pos, "Valid returns %v", p.Ret[0])
			}
		}
	}
}

// bytesID: an ID which is the bytes it was made of.
func bytesID(t *T) bool {
	if t.Op == "iface" && t.S != "" {
		return strings.HasSuffix(t.S, "core/meta.BytesID")
	}
	if t.Op == "iface" || t.Op == "as" || t.Op == "chtype" {
		return bytesID(t.A[0])
	}
	return t.Typ != nil && strings.HasSuffix(types.TypeString(t.Typ, nil), "core/meta.BytesID")
}

// indexList: the prefix scanned is the entry of the field and value.
func (c *Ctx) indexList(t types.Type) {
	f := c.P.methodOf(t, "List")
	if f == nil {
		c.Fail("anchor:List", "-", "%s.List not found", tname(t))
		return
	}
	g := c.P.methodOf(t, "Index")
	shape := ""
	if g != nil {
		b := c.params(g)
		for _, p := range c.run(g, Cfg{Pure: pureSchema}) {
			for _, e := range p.calls(kvSet) {
				if _, s, _, _, pk, why := c.entryShape(pieces(e.Deep[0]), deepStrip(b[1]), deepStrip(b[2])); why == "" && pk != nil {
					shape = s
				}
			}
		}
	}
	a := c.params(f)
	sch, opt := deepStrip(a[1]), deepStrip(a[2])
	okAny := map[string]bool{}
	for _, p := range c.run(f, Cfg{Pure: pureSchema}) {
		if p.Outcome == "panic" {
			c.Fail("list-panics:"+fname(f), p.Pos, "listing panics")
			continue
		}
		facts, ok := p.success()
		var its []*Event
		for _, e := range p.Events {
			if e.Kind == "call" && strings.HasPrefix(e.Fn, "(runtime/kv.KV).Iterate") {
				its = append(its, e)
			}
			c.Check(e.Kind != "call" || e.Fn != kvSet && e.Fn != kvDelete, "list-writes-nothing", fname(f), e.Pos, "listing writes")
		}
		if !ok {
			// an iterator opened is closed
			for _, e := range its {
				closed := false
				for _, x := range p.calls("(runtime/kv.Iterator).Close") {
					closed = closed || same(x.Recv, e.Res[0])
				}
				c.Check(closed, "list-failure-closes", fname(f), p.Pos, "a failing listing leaves its iterator open")
			}
			// a listing with a valid filter and a matching object succeeds
			for _, e := range its {
				for _, x := range p.calls("(runtime/kv.Iterator).Valid") {
					if same(x.Recv, e.Res[0]) {
						v, k := decideIn(p.facts, deepStrip(x.Res[0]))
						c.Check(k && !v, "list-failure", fname(f), p.Pos, "listing fails although there are matching objects")
					}
				}
			}
			continue
		}
		if !c.Check(len(its) == 1 && its[0].Fn == "(runtime/kv.KV).IteratePrefix" && same(p.Ret[0], its[0].Res[0]), "list-iterator", fname(f), p.Pos, "the iterator returned is not over one prefix") {
			continue
		}
		valid := false
		for _, x := range p.calls("(runtime/kv.Iterator).Valid") {
			v, k := decideIn(facts, deepStrip(x.Res[0]))
			valid = valid || k && v && same(x.Recv, its[0].Res[0])
		}
		c.Check(valid, "list-empty", fname(f), p.Pos, "a listing without matching objects succeeds")
		_, s, ix, val, pk, why := c.entryShape(pieces(its[0].Deep[0]), sch, nil)
		if !c.Check(why == "" && pk == nil, "list-prefix", fname(f), its[0].Pos, "the prefix scanned is not that of an index entry: %s", why) {
			continue
		}
		c.Check(s == shape, "list-prefix", fname(f), its[0].Pos, "the prefix scanned is built differently from index entries")
		// the index is that of a filter's field, the value that of the filter
		if !c.Check(ix.Op == "call" && strings.HasPrefix(ix.S, schPfx+"Indexer") && ix.A[0] == sch, "list-index", fname(f), its[0].Pos, "the index scanned is %v", ix) {
			continue
		}
		fld := ix.A[1]
		how := ""
		for _, h := range []string{"EncodeInterface", "EncodeString"} {
			if val.Op == "call" && val.S == idxPfx+h+"#0" {
				how = h
			}
		}
		if !c.Check(how != "" && val.A[0] == ix && fld.Op == "field" && fld.S == "Field" && val.A[1].Op == "field" && val.A[1].S == "Value" && val.A[1].A[0] == fld.A[0], "list-value", fname(f), its[0].Pos, "the value scanned for is %v in field %v, not the filter's", val, fld) {
			continue
		}
		flt := fld.A[0]
		col := ""
		if flt.Op == "index" || flt.Op == "elem" || len(flt.A) == 2 {
			if x := flt.A[0]; x.Op == "field" && x.A[0] == opt {
				col = x.S
			}
		}
		want := map[string]string{"EncodeInterface": "MatchFieldInterface", "EncodeString": "MatchFieldString"}[how]
		c.Check(col == want, "list-value", fname(f), its[0].Pos, "%s is used for the filter %v", how, flt)
		okAny[col] = true
		// lookups succeeded
		for _, x := range []*T{ix, val} {
			er := mk("call", x.S[:strings.LastIndex(x.S, "#")]+"#1", nil, x.A...)
			ert := termsOf(p, func(y *T) bool { return y.Op == "call" && y.S == er.S && sameArgs(y, er) })
			good := false
			if ert != nil {
				n, k := isNilIn(facts, ert)
				good = k && n
			}
			c.Check(good, "list-errors", fname(f), its[0].Pos, "listing succeeds although %s may have failed", x.S)
		}
	}
	for _, s := range []string{"MatchFieldInterface", "MatchFieldString"} {
		c.Check(okAny[s], "list-possible", fname(f)+" "+s, c.P.pos(f.Pos()), "listing with %s never succeeds", s)
	}
}

func sameArgs(a, b *T) bool {
	if len(a.A) != len(b.A) {
		return false
	}
	for i := range a.A {
		if a.A[i] != b.A[i] {
			return false
		}
	}
	return true
}
