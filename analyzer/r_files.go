package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C37", "The two functions that walk the imports of a protobuf file are analysed inductively: with the recursive call replaced by its contract (afterwards everything the file imports is listed and known), every path over an arbitrary list of imports must list each import once, after what it imports, unless it was known, mark it, and visit all of them. What is published for a type is the list of its file's dependencies in that order, followed by the file itself.", c37)
}

const (
	fdPkg     = "google.golang.org/protobuf/reflect/protoreflect"
	fnToFD    = "google.golang.org/protobuf/reflect/protodesc.ToFileDescriptorProto"
	fnImports = "(" + fdPkg + ".FileDescriptor).Imports"
	fnPath    = "(" + fdPkg + ".FileDescriptor).Path"
	fnImpLen  = "(" + fdPkg + ".FileImports).Len"
	fnImpGet  = "(" + fdPkg + ".FileImports).Get"
)

// fileOf is the file a term stands for: a file descriptor, the file of an
// import, or the encoded form of one of these.
func fileOf(t *T) *T {
	t = deepStrip(t)
	for {
		switch {
		case t.Op == "call" && t.S == fnToFD && len(t.A) == 1:
			t = t.A[0]
		case t.Op == "field" && t.S == "FileDescriptor":
			t = t.A[0]
		default:
			return t
		}
		t = deepStrip(t)
	}
}

// selfCall finds the first function reached from f that can call itself again.
func selfCall(f *ssa.Function) *ssa.Function {
	callees := func(g *ssa.Function) (l []*ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if h := ci.Common().StaticCallee(); h != nil && inRepoFn(h) {
						l = append(l, h)
					}
				}
			}
		}
		return
	}
	reaches := func(g *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(h *ssa.Function) bool
		walk = func(h *ssa.Function) bool {
			for _, x := range callees(h) {
				if x == g {
					return true
				}
				if !seen[x] {
					seen[x] = true
					if walk(x) {
						return true
					}
				}
			}
			return false
		}
		return walk(g)
	}
	seen := map[*ssa.Function]bool{f: true}
	for todo := []*ssa.Function{f}; len(todo) > 0; todo = todo[1:] {
		if reaches(todo[0]) {
			return todo[0]
		}
		for _, x := range callees(todo[0]) {
			if !seen[x] {
				seen[x] = true
				todo = append(todo, x)
			}
		}
	}
	return nil
}

// fileItem is an element of the list of files a path produces: a file, or all
// that a recursive call lists.
type fileItem struct {
	file *T
	rec  *Event
	seq  int
}

func filesIn(p *Path, t *T) ([]fileItem, *T) {
	t = deepStrip(t)
	if t.Op == "append" && len(t.A) == 2 {
		l, base := filesIn(p, t.A[0])
		if base != nil {
			if e := p.eventOf(deepStrip(base)); e != nil {
				l = append([]fileItem{{rec: e, file: deepStrip(base)}}, l...)
				base = nil
			}
		}
		x, xb := filesIn(p, t.A[1])
		if xb != nil && !xb.isNil() {
			l = append(l, fileItem{rec: p.eventOf(deepStrip(xb)), file: deepStrip(xb)})
		}
		return append(l, x...), base
	}
	if t.Op == "slicelit" {
		var l []fileItem
		for _, a := range t.A {
			l = append(l, fileItem{file: fileOf(a)})
		}
		return l, nil
	}
	return nil, t
}

// importWalk checks the recursive function f. It reports whether f lists the
// file it is given itself (after its imports) or only the imports.
func (c *Ctx) importWalk(f *ssa.Function) (self bool) {
	ps := c.params(f)
	var fd *T
	for i, q := range f.Params {
		if shortT(q.Type()) == fdPkg+".FileDescriptor" {
			fd = deepStrip(ps[i])
		}
	}
	if fd == nil {
		c.Fail("undecided:"+fname(f), c.P.pos(f.Pos()), "no file among the arguments")
		return
	}
	name := fname(f)
	imports := mk("call", fnImports, nil, fd)
	n := mk("call", fnImpLen, nil, imports)
	paths := c.run(f, Cfg{Opaque: func(s string) bool { return s == name }})
	type outcome struct {
		p    *Path
		l    []fileItem
		recs []*Event
	}
	var outs []outcome
	fdArg := func(e *Event) *T {
		for _, a := range e.Args {
			if x := fileOf(a); x == fd || contains(x, imports) {
				return x
			}
		}
		return nil
	}
	for _, p := range paths {
		if !c.Check(p.Outcome == "return", "walk-ends", name, p.Pos, "walking the imports does not return") {
			continue
		}
		o := outcome{p: p}
		held := map[*T]int{}
		for _, r := range p.Ret {
			if strings.Contains(shortT(r.Typ), "FileDescriptor") || r.Op == "append" || r.Op == "slicelit" {
				l, base := filesIn(p, r)
				c.Check(base == nil || base.isNil(), "files-listed", name, p.Pos, "the list returned starts from %v", base)
				o.l = append(o.l, l...)
			}
		}
		for _, e := range p.Events {
			switch {
			case e.Fn == name:
				o.recs = append(o.recs, e)
				o.l = append(o.l, fileItem{rec: e, seq: e.Seq})
			case e.Kind == "store" && e.Fn != "mapupdate":
				to := strip(e.Args[0])
				l, base := filesIn(p, e.Args[1])
				if base == nil || len(l) == 0 {
					continue
				}
				base = deepStrip(base)
				c.Check(to.Op == "faddr" && base.Op == "field" && base.S == to.S || base.Op == "deref" && base.A[0] == to, "files-listed", name, e.Pos, "the list is replaced by %v", e.Args[1])
				// what earlier additions put there is not added again
				had := held[to]
				held[to] = len(l)
				if !c.Check(len(l) > had, "files-listed", name, e.Pos, "the list is cut to %v", e.Args[1]) {
					continue
				}
				for _, x := range l[had:] {
					x.seq = e.Seq
					o.l = append(o.l, x)
				}
			}
		}
		outs = append(outs, o)
		for _, x := range o.l {
			self = self || x.rec == nil && x.file == fd
		}
	}
	any := false
	for _, o := range outs {
		p := o.p
		// recursive results that are part of the returned list need no
		// separate entry
		inRet := map[*Event]bool{}
		for _, x := range o.l {
			if x.rec != nil && x.file != nil {
				inRet[x.rec] = true
			}
		}
		var l []fileItem
		for _, x := range o.l {
			if x.rec != nil && x.file == nil && inRet[x.rec] {
				continue
			}
			l = append(l, x)
		}
		known := func(x *T) (bool, bool) {
			for a, v := range p.facts {
				if (a.Op == "mapok" || a.Op == "maplookup") && sameFile(a.A[1], x) && addrRoot(a.A[0]).Op != "alloc" {
					return v, true
				}
			}
			return false, false
		}
		marked := func(x *T) bool {
			for _, e := range p.Events {
				if e.Fn == "mapupdate" && sameFile(e.Args[1], x) {
					return true
				}
			}
			return false
		}
		if self {
			k, is := known(fd)
			if !c.Check(is, "file-once", name, p.Pos, "a file is listed without asking whether it already was") {
				continue
			}
			if k {
				c.Check(len(l) == 0, "file-once", name, p.Pos, "a file that is already listed is listed again")
				continue
			}
		}
		// the imports visited
		var idx []*T
		add := func(i *T) {
			for _, j := range idx {
				if i == j {
					return
				}
			}
			idx = append(idx, i)
		}
		done := false
		for a, v := range p.facts {
			if a.Op == "lt" && a.A[1] == n {
				if v {
					add(a.A[0])
				} else {
					done = true
				}
			}
		}
		c.Check(done || len(idx) == 0 && len(p.facts) > 0 && done, "all-imports", name, p.Pos, "not every import is visited")
		if len(idx) > 0 {
			first := false
			for _, i := range idx {
				first = first || intEq(i, 0)
			}
			c.Check(first, "all-imports", name, p.Pos, "the first import is not visited")
		}
		used := map[int]bool{}
		for _, i := range idx {
			any = true
			x := fileOf(mk("call", fnImpGet, nil, imports, i))
			kn, is := known(x)
			rec, own := -1, -1
			for k, y := range l {
				if y.rec != nil && fdArg(y.rec) == x && !used[k] && rec < 0 {
					rec = k
					used[k] = true
				}
				if y.rec == nil && y.file == x {
					c.Check(own < 0, "file-once", name, p.Pos, "an import is listed twice")
					own = k
					used[k] = true
				}
			}
			if is && kn && rec < 0 && own < 0 {
				continue
			}
			if !c.Check(rec >= 0, "imports-first", name, p.Pos, "what an import itself imports is not listed") {
				continue
			}
			if self {
				c.Check(own < 0, "file-once", name, p.Pos, "an import is listed besides its own visit")
				continue
			}
			c.Check(own > rec, "imports-first", name, p.Pos, "an import is not listed after what it imports")
			c.Check(is && !kn, "file-once", name, p.Pos, "an import is listed without asking whether it already was")
			// the question was asked after the visits before this one
			asked := 0
			for _, f := range p.Facts {
				if (f.Atom.Op == "mapok" || f.Atom.Op == "maplookup") && sameFile(f.Atom.A[1], x) && addrRoot(f.Atom.A[0]).Op != "alloc" {
					asked = f.Seq
				}
			}
			for _, z := range l[:rec] {
				if z.rec != nil {
					c.Check(asked > z.rec.Seq, "file-once", name, p.Pos, "whether an import was already listed is asked before files that may import it are visited")
				}
			}
			c.Check(marked(x), "file-once", name, p.Pos, "an import that was listed is not remembered")
			// the recursive visit knows what is known here
			same := false
			for k, a := range l[rec].rec.Args {
				same = same || k < len(ps) && deepStrip(a) == deepStrip(ps[k]) && isMapTerm(ps[k])
			}
			c.Check(same, "file-once", name, p.Pos, "the files already listed are not known when an import is visited")
		}
		// a file is known only once it is listed (or being visited)
		for k, y := range l {
			if y.rec == nil {
				continue
			}
			for _, e := range p.Events {
				if e.Fn != "mapupdate" || e.Seq > y.rec.Seq || sameFile(e.Args[1], fd) {
					continue
				}
				good := false
				if x := fdArg(y.rec); x != nil {
					good = sameFile(e.Args[1], x)
				}
				for _, z := range l[:k] {
					good = good || z.rec == nil && sameFile(e.Args[1], z.file)
					if z.rec != nil && self {
						if x := fdArg(z.rec); x != nil {
							good = good || sameFile(e.Args[1], x)
						}
					}
				}
				c.Check(good, "imports-first", name, e.Pos, "a file counts as listed while the imports of others are visited, before it is")
			}
		}
		for k, y := range l {
			if used[k] {
				continue
			}
			if self && y.rec == nil && y.file == fd {
				c.Check(k == len(l)-1, "imports-first", name, p.Pos, "a file is listed before what it imports")
				continue
			}
			c.Check(false, "files-listed", name, p.Pos, "the list contains %v, which is not an import of the file", y.file)
		}
		if self {
			c.Check(marked(fd), "file-once", name, p.Pos, "a file that was listed is not remembered")
			k := 0
			for _, y := range l {
				if y.rec == nil && y.file == fd {
					k++
				}
			}
			c.Check(k == 1, "files-listed", name, p.Pos, "a file is listed %d times", k)
		}
	}
	c.Check(any, "all-imports", name, c.P.pos(f.Pos()), "no import is ever visited")
	return
}

// sameFile: the key under which a file is remembered identifies x.
func sameFile(key, x *T) bool {
	key = deepStrip(key)
	if key.Op == "call" && key.S == fnPath && len(key.A) == 1 {
		key = key.A[0]
	}
	return fileOf(key) == fileOf(x)
}

func isMapTerm(t *T) bool { return t.Typ != nil && strings.HasPrefix(shortT(t.Typ), "map[") }

func c37(c *Ctx) {
	deps := c.fn("pkg/protoutils/desc", "Dependencies")
	if deps == nil {
		return
	}
	// the dependencies of a file
	r := selfCall(deps)
	if r == nil {
		c.Fail("undecided:"+fname(deps), c.P.pos(deps.Pos()), "the function that walks the imports was not found")
		return
	}
	self := c.importWalk(r)
	c.Check(!self, "dependencies-without-file", fname(deps), c.P.pos(deps.Pos()), "the dependencies of a file contain the file")
	if r != deps {
		fd := deepStrip(c.params(deps)[0])
		for _, p := range c.run(deps, Cfg{Opaque: func(s string) bool { return s == fname(r) }}) {
			if !c.Check(p.Outcome == "return" && len(p.Ret) == 1, "dependencies", fname(deps), p.Pos, "listing the dependencies does not return") {
				continue
			}
			e := p.eventOf(deepStrip(p.Ret[0]))
			for _, x := range p.calls(fname(r)) {
				for i := range x.Args {
					empty := false
					if i < len(x.Deep) && x.Deep[i] != nil {
						d := strip(x.Deep[i])
						empty = d.Op == "ref" && d.A[0].isNil()
					}
					if empty && deepStrip(p.Ret[0]) == deepStrip(evOut(x, i)) {
						e = x
					}
				}
			}
			good := e != nil && e.Fn == fname(r)
			fresh := true
			if good {
				arg := false
				for _, a := range e.Args {
					arg = arg || fileOf(a) == fd
					if isMapTerm(a) {
						m := deepStrip(a)
						fresh = fresh && (m.Op == "alloc" || m.Op == "nil")
						for k := range p.st.mem {
							fresh = fresh && !(k.Op == "mapent" && k.A[0] == m)
						}
					}
				}
				good = arg
			}
			c.Check(good, "dependencies", fname(deps), p.Pos, "the dependencies of the file are %v", p.Ret[0])
			c.Check(fresh, "dependencies", fname(deps), p.Pos, "files are taken for listed before anything is")
		}
	}
	// what a module publishes about its types
	raw := c.method("runtime/module", "Descriptor", "Raw")
	if raw == nil {
		return
	}
	n := 0
	for g := range c.P.callers()[deps] {
		if !strings.HasPrefix(fname(g), "runtime/module.") || len(g.Params) == 0 {
			continue
		}
		n++
		fdRaw := c.params(g)[len(g.Params)-1]
		fd := deepStrip(fdRaw)
		for _, p := range c.run(g, Cfg{Opaque: func(s string) bool { return s == fname(deps) }}) {
			if !c.Check(p.Outcome == "return" && len(p.Ret) == 1, "published-files", fname(g), p.Pos, "listing the files of a type does not return") {
				continue
			}
			es := p.calls(fname(deps))
			if !c.Check(len(es) == 1 && fileOf(es[0].Args[0]) == fd, "published-files", fname(g), p.Pos, "the dependencies published are not those of the file") {
				continue
			}
			col := deepStrip(es[0].Res[0])
			idx, done := elems(p.facts, col)
			if m := deepStrip(p.RetDeep[0]); m.Op == "mslice" {
				// filled index by index
				end := lenOf(col)
				want := map[*T]*T{end: fd}
				for _, i := range idx {
					want[deepStrip(i)] = fileOf(mkElem(col, i, nil))
				}
				good := done && m.A[0] == mk("bin", "+", nil, end, mkInt(1)) && len(m.A) == 1+2*len(want)
				for k := 1; good && k+1 < len(m.A); k += 2 {
					good = want[deepStrip(m.A[k])] == fileOf(m.A[k+1])
				}
				c.Check(good, "published-files", fname(g), p.Pos, "the files published are %v instead of the dependencies in order followed by the file", m)
				continue
			}
			l, base := filesIn(p, p.Ret[0])
			c.Check(base == nil || base.isNil(), "published-files", fname(g), p.Pos, "the list published starts with %v", base)
			want := []*T{}
			for _, i := range idx {
				want = append(want, fileOf(mkElem(col, i, nil)))
			}
			want = append(want, fd)
			sameList := func(want []*T) bool {
				good := len(l) == len(want)
				for k := range l {
					good = good && l[k].rec == nil && l[k].file == want[k]
				}
				return good
			}
			good := done && sameList(want)
			if !good {
				// or the files of the list extended by the file itself
				all := deepStrip(mk("append", "", nil, col, mk("slicelit", "", nil, fdRaw)))
				if idx, d := elems(p.facts, all); d {
					want = nil
					for _, i := range idx {
						want = append(want, fileOf(mkElem(all, i, nil)))
					}
					good = sameList(want)
				}
			}
			c.Check(good, "published-files", fname(g), p.Pos, "the files published are %v instead of the dependencies in order followed by the file", p.Ret[0])
		}
	}
	c.Check(n > 0, "published-files", fname(raw), c.P.pos(raw.Pos()), "no function of the module package publishes the dependencies of a file")
	c.pluginFiles()
}

// pluginFiles: the API document is generated from the files of all its
// messages and everything these import.
func (c *Ctx) pluginFiles() {
	const pk = "pkg/protoutils/oas3schema"
	f := c.method(pk, "OpenAPIv3Generator", "pluginFromRegistry")
	if f == nil {
		return
	}
	r := selfCall(f)
	if r == nil {
		c.Fail("undecided:"+fname(f), c.P.pos(f.Pos()), "the function that walks the imports was not found")
		return
	}
	self := c.importWalk(r)
	c.Check(self, "document-files", fname(r), c.P.pos(r.Pos()), "the files of the document's messages are not listed")
	recv := deepStrip(c.params(f)[0])
	col := deepStrip(mkField(recv, "requiredObjects", nil))
	okAny := false
	for _, p := range c.run(f, Cfg{Opaque: func(s string) bool { return s == fname(r) }}) {
		if !c.Check(p.Outcome == "return", "document-files", fname(f), p.Pos, "collecting the files panics") {
			continue
		}
		idx, done := elems(p.facts, col)
		es := p.calls(fname(r))
		c.Check(done && len(es) == len(idx), "document-files", fname(f), p.Pos, "%d files are collected for %d messages", len(es), len(idx))
		for k, i := range idx {
			if k >= len(es) {
				break
			}
			want := mk("call", "("+fdPkg+".Descriptor).ParentFile", nil, deepStrip(mkElem(col, i, nil)))
			got := fileOf(es[k].Args[len(es[k].Args)-1])
			c.Check(got.Op == "call" && strings.HasSuffix(got.S, ").ParentFile") && got.A[0] == want.A[0], "document-files", fname(f), es[k].Pos, "the file collected is %v", got)
		}
		var opt *Event
		for _, e := range p.Events {
			if strings.HasSuffix(e.Fn, "protogen.Options).New") {
				opt = e
			}
		}
		if !c.Check(opt != nil, "document-files", fname(f), p.Pos, "nothing is generated from the files") {
			continue
		}
		facts, ok := p.success()
		if !ok {
			c.Check(p.failedStep() != nil || p.eventOf(deepStrip(p.errRet())) != nil, "document-files", fname(f), p.Pos, "collecting the files fails although nothing failed")
			continue
		}
		okAny = true
		c.Check(opt.okIn(facts), "document-files", fname(f), opt.Pos, "collecting the files succeeds although it may have failed")
		if len(es) > 0 {
			pf := deepStrip(field(opt.Deep[len(opt.Deep)-1], "ProtoFile"))
			want := deepStrip(mkField(evOut(es[len(es)-1], 0), "dpb", nil))
			c.Check(pf == want || pf != nil && pf.Op == "field" && pf.A[0] == deepStrip(evOut(es[len(es)-1], 0)), "document-files", fname(f), opt.Pos, "the document is generated from %v", pf)
		}
	}
	c.Check(okAny, "document-files", fname(f), c.P.pos(f.Pos()), "the files can never be collected")
}
