package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "Every path of the object store's operations is enumerated. Creating must write exactly the deterministic encoding of the object under its key after establishing that the key is absent, updating and deleting after establishing that it is present; reading must decode exactly the bytes stored under the key into the caller's object; failing paths must write nothing; all operations must build keys of the same shape from the type name and the non-empty primary key.", c16)
	register("C17", "Every path of the ORM operations and of the indexer is enumerated: object write, then index maintenance, errors returned; one index entry per index of the schema and a list naming all of them under the object's key; clearing deletes every listed entry and the list, reading the list back with the inverse of the operations that wrote it.", c17)
	register("C20", "All paths of listing are enumerated: the prefix scanned is, byte for byte, the index entry of the requested field and encoded value without the primary key; unknown fields, values of the wrong type and empty results are errors; the iterator stays inside the prefix, yields the primary key part and reads objects with it.", c20)
}

const (
	kvHas    = "(runtime/kv.KV).Has"
	kvGet    = "(runtime/kv.KV).Get"
	kvSet    = "(runtime/kv.KV).Set"
	kvDelete = "(runtime/kv.KV).Delete"
	schPfx   = "(*runtime/orm/schema.Schema)."
	idxPfx   = "(*runtime/orm/schema.Indexer)."
)

// pureSchema: schemas are immutable, their methods functions of their arguments.
func pureSchema(n string) bool { return strings.HasPrefix(n, schPfx) || strings.HasPrefix(n, idxPfx) }

// A piece of a byte string: a constant byte, the fixed width or variable
// width encoding of a length, or a value.
type piece struct {
	kind string // byte, len8, varint, lenval, val
	b    byte
	t    *T
}

func (p piece) String() string {
	switch p.kind {
	case "byte":
		return "byte " + itoa(int(p.b))
	}
	return p.kind + " " + p.t.String()
}

func piecesStr(ps []piece) string {
	var s []string
	for _, p := range ps {
		s = append(s, p.String())
	}
	return "[" + strings.Join(s, " | ") + "]"
}

// pieces lists what a byte string is made of, in order.
func pieces(t *T) []piece {
	raw := rawPieces(deepStrip(t))
	// eight bytes of the same length, lowest or highest first
	var out []piece
	for i := 0; i < len(raw); i++ {
		if x, n := lenByte(raw[i]); x != nil && (n == 0 || n == 56) && i+8 <= len(raw) {
			ok := true
			for k := 0; k < 8; k++ {
				y, m := lenByte(raw[i+k])
				want := int64(8 * k)
				if n == 56 {
					want = 56 - want
				}
				ok = ok && y == x && m == want
			}
			if ok {
				k := "len8"
				if n == 56 {
					k = "len8be"
				}
				out = append(out, piece{kind: k, t: x})
				i += 7
				continue
			}
		}
		out = append(out, raw[i])
	}
	return out
}

// lenByte: one byte of the length of x, shifted by n bits.
func lenByte(p piece) (*T, int64) {
	if p.kind != "part" {
		return nil, 0
	}
	t := p.t
	for t.Op == "conv" {
		t = t.A[0]
	}
	var sh int64
	if t.Op == "bin" && t.S == ">>" {
		n, ok := t.A[1].intVal()
		if !ok {
			return nil, 0
		}
		sh = n
		t = t.A[0]
	}
	for t.Op == "conv" && (t.S == "uint64" || t.S == "int" || t.S == "int64") {
		t = t.A[0]
	}
	if t.Op == "len" {
		return t.A[0], sh
	}
	return nil, 0
}

func bytePiece(x *T) piece {
	if n, ok := x.intVal(); ok {
		return piece{kind: "byte", b: byte(n)}
	}
	return piece{kind: "part", t: x}
}

func isLen(t *T) *T {
	for t.Op == "conv" && (t.S == "uint64" || t.S == "int" || t.S == "int64") {
		t = t.A[0]
	}
	if t.Op == "len" {
		return t.A[0]
	}
	return nil
}

func rawPieces(t *T) []piece {
	switch t.Op {
	case "nil":
		return nil
	case "append":
		return append(rawPieces(t.A[0]), rawPieces(t.A[1])...)
	case "slicelit":
		var out []piece
		for _, x := range t.A {
			out = append(out, bytePiece(x))
		}
		return out
	case "mslice":
		if ps, ok := filled(t); ok {
			return ps
		}
		n, ok := t.A[0].intVal()
		if !ok || n > 64 {
			break
		}
		vals := map[int64]*T{}
		for i := 1; i+1 < len(t.A); i += 2 {
			k, ok := t.A[i].intVal()
			if !ok {
				return []piece{{kind: "val", t: t}}
			}
			vals[k] = t.A[i+1]
		}
		var out []piece
		for i := int64(0); i < n; i++ {
			if v := vals[i]; v != nil {
				out = append(out, bytePiece(v))
			} else {
				out = append(out, piece{kind: "byte"})
			}
		}
		return out
	case "conv":
		if s, ok := t.A[0].strVal(); ok {
			var out []piece
			for i := 0; i < len(s); i++ {
				out = append(out, piece{kind: "byte", b: s[i]})
			}
			return out
		}
		if t.S == "[]byte" && t.A[0].Op == "bin" && t.A[0].S == "+" {
			return append(rawPieces(t.A[0].A[0]), rawPieces(t.A[0].A[1])...)
		}
		return []piece{{kind: "val", t: t}}
	case "const":
		if s, ok := t.strVal(); ok {
			var out []piece
			for i := 0; i < len(s); i++ {
				out = append(out, piece{kind: "byte", b: s[i]})
			}
			return out
		}
	case "call":
		switch {
		case strings.HasSuffix(t.S, "protowire.AppendVarint") && len(t.A) == 2:
			return append(rawPieces(t.A[0]), piece{kind: "varint", t: t.A[1]})
		case strings.HasSuffix(t.S, "protowire.AppendBytes") && len(t.A) == 2:
			return append(rawPieces(t.A[0]), piece{kind: "lenval", t: t.A[1]})
		case t.S == "bytes.Join" && len(t.A) == 2 && (t.A[0].Op == "slicelit" || t.A[0].isNil()):
			var out []piece
			for i, x := range t.A[0].A {
				if i > 0 {
					out = append(out, rawPieces(t.A[1])...)
				}
				out = append(out, rawPieces(x)...)
			}
			return out
		case t.S == "bytes.Clone" && len(t.A) == 1:
			return rawPieces(t.A[0])
		case t.S == "(encoding/binary.littleEndian).AppendUint64" && len(t.A) == 3:
			if x := isLen(t.A[2]); x != nil {
				return append(rawPieces(t.A[1]), piece{kind: "len8", t: x})
			}
		case t.S == "(encoding/binary.bigEndian).AppendUint64" && len(t.A) == 3:
			if x := isLen(t.A[2]); x != nil {
				return append(rawPieces(t.A[1]), piece{kind: "len8be", t: x})
			}
		}
	}
	return []piece{{kind: "val", t: t}}
}

// norm merges a length and the value it belongs to.
func norm(ps []piece) []piece {
	var out []piece
	for i := 0; i < len(ps); i++ {
		p := ps[i]
		if i+1 < len(ps) && ps[i+1].kind == "val" && ps[i+1].t == p.t && (p.kind == "len8" || p.kind == "len8be") {
			out = append(out, piece{kind: "lenval", t: p.t})
			i++
			continue
		}
		if i+1 < len(ps) && p.kind == "varint" && ps[i+1].kind == "val" && isLen(p.t) == ps[i+1].t {
			out = append(out, piece{kind: "lenval", t: ps[i+1].t})
			i++
			continue
		}
		out = append(out, p)
	}
	return out
}

// leadBytes splits constant leading bytes from the rest.
func leadBytes(ps []piece) (string, []piece) {
	s := ""
	for len(ps) > 0 && ps[0].kind == "byte" {
		s += string([]byte{ps[0].b})
		ps = ps[1:]
	}
	return s, ps
}

func schCall(t *T, name string) bool { return t != nil && t.Op == "call" && t.S == schPfx+name }
func idxCall(t *T, name string) bool { return t != nil && t.Op == "call" && t.S == idxPfx+name }

// objKeyShape: type name, separator, primary key.
func objKeyShape(ps []piece, sch *T) (sep string, pk *T, why string) {
	ps = norm(ps)
	pre, rest := leadBytes(ps)
	if len(rest) == 0 || !(rest[0].kind == "val" || rest[0].kind == "lenval") || !schCall(rest[0].t, "TypePrefix") || rest[0].t.A[0] != sch {
		return "", nil, "it does not start with the schema's type name: " + piecesStr(ps)
	}
	selfDelim := rest[0].kind == "lenval"
	mid, rest := leadBytes(rest[1:])
	if len(rest) != 1 || rest[0].kind != "val" && rest[0].kind != "lenval" {
		return "", nil, "it does not end with one primary key: " + piecesStr(ps)
	}
	if !selfDelim {
		ok := false
		for i := 0; i < len(mid); i++ {
			b := mid[i]
			if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_' || b == '.') {
				ok = true
			}
		}
		if !ok {
			return "", nil, "nothing separates the type name from the primary key, so objects of different types can share a key: " + piecesStr(ps)
		}
	}
	k := "val"
	if selfDelim {
		k = "lenval"
	}
	return pre + "|" + k + "|" + mid + "|" + rest[0].kind, rest[0].t, ""
}

// keyExists: what the path knows, before seq, about the presence of key.
func keyExists(p *Path, key *T, seq int) (exists, known bool) {
	fb := p.factsBefore(seq)
	for _, e := range p.Events {
		if e.Seq >= seq || e.Kind != "call" || (e.Fn != kvHas && e.Fn != kvGet) || len(e.Deep) < 1 || !same(e.Deep[0], key) {
			continue
		}
		if v, k := decideIn(fb, deepStrip(e.Res[len(e.Res)-1])); k {
			exists, known = v, true
		}
	}
	return
}

// kvOther: calls through which the store could be written other than the
// operations of the KV interface.
func kvCalls(p *Path) (sets, dels, other []*Event) {
	for _, e := range p.Events {
		if e.Kind != "call" && e.Kind != "go" {
			continue
		}
		switch {
		case e.Fn == kvSet && e.Kind == "call":
			sets = append(sets, e)
		case e.Fn == kvDelete && e.Kind == "call":
			dels = append(dels, e)
		case e.Fn == kvHas, e.Fn == kvGet:
		case e.Kind == "go", strings.Contains(e.Fn, "badger"):
			other = append(other, e)
		}
	}
	return
}

func (c *Ctx) params(f *ssa.Function) []*T { return c.P.engine(Cfg{}).params(f) }

func isIDBytes(t, id *T) bool {
	t, id = deepStrip(t), deepStrip(id)
	return t != nil && t.Op == "call" && strings.HasSuffix(t.S, ").Bytes") && len(t.A) == 1 && t.A[0] == id
}

func c16(c *Ctx) {
	it := c.P.named("runtime/orm", "ObjectsStore")
	if it == nil {
		c.Fail("anchor:ObjectsStore", "-", "the object store interface was not found")
		return
	}
	shapes := map[string]string{}
	n := 0
	for _, t := range c.P.implementers(it) {
		n++
		for _, m := range []string{"Create", "Get", "Update", "Delete"} {
			f := c.P.methodOf(t, m)
			if f == nil {
				c.Fail("anchor:"+m, "-", "%s.%s not found", tname(t), m)
				continue
			}
			a := c.params(f)
			sch, arg := a[1], a[2]
			okAny := false
			for _, p := range c.run(f, Cfg{Pure: pureSchema}) {
				sets, dels, other := kvCalls(p)
				c.Check(len(other) == 0, "object-kv-only", fname(f), p.Pos, "%s reaches the database around the KV interface", fname(f))
				facts, ok := p.success()
				if p.Outcome == "panic" || !ok {
					c.Check(len(sets)+len(dels) == 0, "object-failure-writes-nothing", fname(f), p.Pos, "%s writes although it fails", fname(f))
					continue
				}
				if p.Outcome != "return" {
					continue
				}
				okAny = true
				var key *T
				var seq int
				switch m {
				case "Create", "Update":
					if !c.Check(len(sets) == 1 && len(dels) == 0, "object-one-write", fname(f), p.Pos, "%s succeeds with %d writes and %d deletions", fname(f), len(sets), len(dels)) {
						continue
					}
					key, seq = sets[0].Deep[0], sets[0].Seq
					ex, k := keyExists(p, key, seq)
					if m == "Create" {
						c.Check(k && !ex, "object-create-if-absent", fname(f), sets[0].Pos, "an object is created although its key may exist")
					} else {
						c.Check(k && ex, "object-update-if-present", fname(f), sets[0].Pos, "an object is updated although its key may not exist")
					}
					ok, why := c.marshalled(p, facts, sets[0].Deep[1], arg)
					c.Check(ok, "object-value", fname(f), sets[0].Pos, "the value stored is %v: %s", sets[0].Deep[1], why)
				case "Delete":
					if !c.Check(len(sets) == 0 && len(dels) == 1, "object-one-write", fname(f), p.Pos, "%s succeeds with %d writes and %d deletions", fname(f), len(sets), len(dels)) {
						continue
					}
					key, seq = dels[0].Deep[0], dels[0].Seq
					ex, k := keyExists(p, key, seq)
					c.Check(k && ex, "object-delete-if-present", fname(f), dels[0].Pos, "an object is deleted although its key may not exist")
				case "Get":
					c.Check(len(sets)+len(dels) == 0, "object-read-writes-nothing", fname(f), p.Pos, "reading writes")
					var got *Event
					for _, e := range p.calls(kvGet) {
						got = e
					}
					if !c.Check(got != nil, "object-read", fname(f), p.Pos, "reading succeeds without reading the store") {
						continue
					}
					key, seq = got.Deep[0], got.Seq
					ex, k := decideIn(facts, deepStrip(got.Res[1]))
					c.Check(k && ex, "object-read", fname(f), got.Pos, "reading succeeds although the key may not exist")
					um := 0
					for _, e := range p.Events {
						if e.Kind == "call" && isUnmarshal(e.Fn) {
							b, o := unmarshalArgs(e)
							um++
							c.Check(same(b, got.Res[0]) && same(o, a[3]), "object-read", fname(f), e.Pos, "reading decodes %v into %v instead of the stored bytes into the target", b, o)
							c.Check(e.okIn(facts), "object-read", fname(f), e.Pos, "reading succeeds although decoding may have failed")
						}
					}
					c.Check(um == 1, "object-read", fname(f), p.Pos, "reading decodes %d times", um)
				}
				sep, pk, why := objKeyShape(pieces(key), sch)
				if !c.Check(why == "", "object-key", fname(f), p.Pos, "the key used by %s is wrong: %s", fname(f), why) {
					continue
				}
				shapes[sep] = fname(f)
				if m == "Get" {
					c.Check(isIDBytes(pk, arg), "object-key", fname(f), p.Pos, "the primary key read is %v, not the requested one", pk)
				} else {
					c.Check(schCall(pk, "EncodePrimaryKey") && pk.A[0] == sch && pk.A[1] == deepStrip(arg), "object-key", fname(f), p.Pos, "the primary key written is %v, not the object's", pk)
				}
				c.Check(knownNonEmpty(p.factsBefore(seq), pk), "object-key-not-empty", fname(f), p.Pos, "an object with an empty primary key is accepted")
				// errors that tell what happened
			}
			c.Check(okAny, "object-operation-possible", fname(f), c.P.pos(f.Pos()), "%s never succeeds", fname(f))
			c.objectErrors(f, m)
		}
	}
	c.Check(n > 0, "object-stores", "implementations", "-", "no object store was found")
	c.Check(len(shapes) <= 1, "object-same-key", "object store", "-", "the operations build keys of different shapes: %v", sortedKeys(shapes))
	c.ownKV()
	c.ormGet()
	c.primaryKeyEncoding()
	c.storeErrors()
}

// objectErrors: absence and presence are reported with the store's errors.
func (c *Ctx) objectErrors(f *ssa.Function, m string) {
	want := "runtime/orm.ErrNotFound"
	if m == "Create" {
		want = "runtime/orm.ErrAlreadyExists"
	}
	for _, p := range c.run(f, Cfg{Pure: pureSchema}) {
		if p.Outcome != "return" {
			continue
		}
		for _, e := range p.Events {
			if e.Kind != "call" || e.Fn != kvHas && e.Fn != kvGet {
				continue
			}
			ex, k := decideIn(p.facts, deepStrip(e.Res[len(e.Res)-1]))
			if !k || ex != (m == "Create") {
				continue
			}
			r := p.errRet()
			ok := false
			for _, s := range wrappedErrs(r) {
				ok = ok || s == want
			}
			c.Check(ok, "object-error-kind", fname(f), p.Pos, "%s returns %v, which is not %s", fname(f), r, want)
		}
	}
}

// wrappedErrs lists the package level errors that errors.Is finds in an error.
func wrappedErrs(t *T) []string {
	t = deepStrip(t)
	if t == nil {
		return nil
	}
	switch t.Op {
	case "gval", "global":
		return []string{shortName(t.S)}
	case "deref":
		return wrappedErrs(t.A[0])
	case "call":
		if t.S == "fmt.Errorf" && len(t.A) >= 1 {
			f, ok := t.A[0].strVal()
			if !ok {
				return nil
			}
			args := t.A[1:]
			if len(args) == 1 && args[0].Op == "slicelit" {
				args = args[0].A
			}
			var out []string
			for _, i := range wrapVerbs(f) {
				if i < len(args) {
					out = append(out, wrappedErrs(args[i])...)
				}
			}
			return out
		}
	}
	return nil
}

func isUnmarshal(n string) bool {
	return n == "(google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal" || n == "google.golang.org/protobuf/proto.Unmarshal"
}

func unmarshalArgs(e *Event) (b, o *T) {
	n := len(e.Deep)
	if n < 2 {
		return nil, nil
	}
	return e.Args[n-2], e.Args[n-1]
}

// marshalled: v is the deterministic protobuf encoding of obj.
func (c *Ctx) marshalled(p *Path, facts map[*T]bool, v, obj *T) (bool, string) {
	for _, e := range p.Events {
		if e.Kind != "call" || len(e.Res) != 2 || !same(e.Res[0], v) {
			continue
		}
		if e.Fn != "(google.golang.org/protobuf/proto.MarshalOptions).Marshal" {
			return false, "encoded with " + e.Fn + ", which is not known to be deterministic"
		}
		o := e.Deep[0]
		var msg *T
		if e.DRecv != nil {
			o, msg = e.DRecv, e.Args[len(e.Args)-1]
		} else {
			msg = e.Args[len(e.Args)-1]
		}
		if !c.optionTrue(o, "Deterministic") {
			return false, "the encoding is not deterministic"
		}
		if !same(msg, obj) {
			return false, "it encodes " + msg.String()
		}
		if !e.okIn(facts) {
			return false, "encoding may have failed"
		}
		return true, ""
	}
	return false, "it is not the encoding of an object"
}

// optionTrue: a boolean field of an options struct, given literally or as a
// package variable initialised once with it.
func (c *Ctx) optionTrue(o *T, name string) bool {
	f := field(o, name)
	if f != nil {
		if b, ok := strip(f).boolVal(); ok {
			return b
		}
	}
	x := deepStrip(o)
	for x.Op == "deref" {
		x = x.A[0]
	}
	if x.Op != "global" && x.Op != "gval" {
		return false
	}
	// the variable: written only by its initialiser
	set, others := false, false
	for _, fn := range c.P.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch ad := st.Addr.(type) {
				case *ssa.FieldAddr:
					g, ok := ad.X.(*ssa.Global)
					if !ok || shortName(g.String()) != shortName(x.S) {
						continue
					}
					stt := derefT(g.Type()).Underlying().(*types.Struct)
					if stt.Field(ad.Field).Name() != name {
						continue
					}
					k, ok := st.Val.(*ssa.Const)
					if ok && k.Value != nil && k.Value.String() == "true" && fn.Name() == "init" {
						set = true
					} else {
						others = true
					}
				case *ssa.Global:
					if shortName(ad.String()) != shortName(x.S) {
						continue
					}
					if fn.Name() == "init" && literalTrue(st.Val, name) {
						set = true
					} else {
						others = true
					}
				}
			}
		}
	}
	return set && !others
}

// literalTrue: v is a struct literal whose field is the constant true.
func literalTrue(v ssa.Value, name string) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	set := false
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		st := derefT(al.Type()).Underlying().(*types.Struct)
		if st.Field(fa.Field).Name() != name {
			continue
		}
		for _, u := range *fa.Referrers() {
			s, ok := u.(*ssa.Store)
			if !ok {
				return false
			}
			k, ok := s.Val.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.String() != "true" {
				return false
			}
			set = true
		}
	}
	return set
}

// ownKV: objects and indexes live in databases of their own, or their keys
// cannot collide.
func (c *Ctx) ownKV() {
	// every construction of an orm store
	n := 0
	for _, cs := range c.P.callSites(func(n string) bool { return n == "runtime/orm.NewStore" }) {
		n++
		a := cs.Call.Common().Args
		l, r := kvOf(a[0], 0), kvOf(a[1], 0)
		c.Check(l != nil && r != nil && l != r, "object-and-index-databases", fname(cs.In), c.P.pos(cs.Call.Pos()), "objects and indexes use the same database, where their keys collide, or databases that could not be determined")
	}
	c.Check(n > 0, "object-and-index-databases", "construction", "-", "no store is constructed")
}

// kvOf finds the database creation a store is built on.
func kvOf(v ssa.Value, d int) ssa.Value {
	if d > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return kvOf(x.X, d+1)
	case *ssa.ChangeInterface:
		return kvOf(x.X, d+1)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return nil
		}
		for _, a := range x.Call.Args {
			if r := kvOf(a, d+1); r != nil {
				return r
			}
		}
		if strings.HasSuffix(types.TypeString(x.Type(), nil), "kv.Badger") || strings.HasSuffix(types.TypeString(x.Type(), nil), "kv.KV") {
			return x
		}
	case *ssa.Phi:
		return nil
	}
	return nil
}

// primaryKeyEncoding: the primary key is the encoded field of the object, or
// one constant, which is the singleton's ID.
func (c *Ctx) primaryKeyEncoding() {
	f := c.method("runtime/orm/schema", "Schema", "EncodePrimaryKey")
	if f == nil {
		return
	}
	a := c.params(f)
	var enc, pkf *T
	single := false
	for _, p := range c.run(f, Cfg{}) {
		if p.Outcome != "return" {
			continue
		}
		r := deepStrip(p.RetDeep[0])
		if ps, rest := leadBytes(pieces(r)); len(rest) == 0 {
			single = true
			id := c.singletonID()
			c.Check(ps != "" && ps == id, "singleton-key", fname(f), p.Pos, "a singleton is stored under %q, while its ID is %q", ps, id)
			sg := false
			for fa, v := range p.facts {
				if v && fa.Op == "field" && fa.A[0] == deepStrip(a[0]) && fa.S == c.singletonField() {
					sg = true
				}
			}
			c.Check(sg, "singleton-key", fname(f), p.Pos, "objects which are not singletons are stored under the singleton key")
			continue
		}
		e, fd, why := encodedField(p, r, a[1])
		if !c.Check(why == "", "primary-key-encoding", fname(f), p.Pos, "the primary key of an object is %v: %s", r, why) {
			continue
		}
		enc, pkf = e, fd
	}
	c.Check(single && enc != nil && pkf != nil, "primary-key-encoding", fname(f), c.P.pos(f.Pos()), "keys of singletons or of other objects cannot be built")
	g := c.method("runtime/orm/schema", "Schema", "EncodePrimaryKeyString")
	if g == nil || enc == nil {
		return
	}
	b := c.params(g)
	okAny := false
	for _, p := range c.run(g, Cfg{}) {
		facts, ok := p.success()
		if !ok {
			failed := p.Outcome != "return"
			for _, e := range p.calls(kePfx + "EncodeString") {
				failed = failed || e.failedIn(p.facts)
			}
			if !failed {
				v, k := decideIn(p.facts, mk("field", c.singletonField(), nil, b[0]))
				failed = k && v
			}
			c.Check(failed, "primary-key-string", fname(g), p.Pos, "a textual primary key is refused although it is one of the object's kind")
			continue
		}
		okAny = true
		why := encodedFrom(p, facts, p.RetDeep[0], enc, "EncodeString", b[1])
		c.Check(why == "", "primary-key-string", fname(g), p.Pos, "the key of a textual primary key is %v: %s", p.RetDeep[0], why)
	}
	c.Check(okAny, "primary-key-string", fname(g), c.P.pos(g.Pos()), "textual primary keys are never accepted")
}

const kePfx = "(pkg/protoutils/kindencoder.KindEncoder)."

// encodedField: r is encoder.EncodeValueToBytes(object field fd).
func encodedField(p *Path, r, obj *T) (enc, fd *T, why string) {
	for _, e := range p.calls(kePfx + "EncodeValueToBytes") {
		if !same(e.Res[0], r) {
			continue
		}
		v := deepStrip(e.Deep[0])
		if v.Op != "call" || !strings.HasSuffix(v.S, ").Get") || len(v.A) != 2 || v.A[0].Op != "call" || !strings.HasSuffix(v.A[0].S, ").ProtoReflect") || v.A[0].A[0] != deepStrip(obj) {
			return nil, nil, "it does not encode a field of the object"
		}
		return deepStrip(e.DRecv), v.A[1], ""
	}
	return nil, nil, "it is not an encoded value"
}

// encodedFrom: r is encoder.EncodeValueToBytes(encoder.how(arg)) where how succeeded.
func encodedFrom(p *Path, facts map[*T]bool, r, enc *T, how string, arg *T) string {
	for _, e := range p.calls(kePfx + "EncodeValueToBytes") {
		if !same(e.Res[0], r) {
			continue
		}
		if deepStrip(e.DRecv) != enc {
			return "another encoder is used"
		}
		for _, s := range p.calls(kePfx + how) {
			if same(s.Res[0], e.Args[0]) {
				if deepStrip(s.DRecv) != enc {
					return "another encoder is used"
				}
				if !same(s.Args[0], arg) {
					return "it encodes " + s.Args[0].String()
				}
				if !s.okIn(facts) {
					return "the value may not have been valid"
				}
				return ""
			}
		}
		return "the value encoded does not come from " + how
	}
	return "it is not an encoded value"
}

func (c *Ctx) singletonID() string {
	g := c.P.obj("core/meta", "SingletonID")
	if g == nil {
		return ""
	}
	for _, f := range c.P.allFuncs {
		if f.Name() != "init" || fnPkgPath(f) != modPath+"/core/meta" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				gl, ok := st.Addr.(*ssa.Global)
				if !ok || gl.Name() != "SingletonID" {
					continue
				}
				v := st.Val
				for {
					switch x := v.(type) {
					case *ssa.ChangeType:
						v = x.X
						continue
					case *ssa.Convert:
						v = x.X
						continue
					}
					break
				}
				if k, ok := v.(*ssa.Const); ok && k.Value != nil {
					s := constTerm(k)
					r, _ := s.strVal()
					return r
				}
			}
		}
	}
	return ""
}

// singletonField: the field of the schema which the constructor sets to true
// exactly when the definition is a singleton.
func (c *Ctx) singletonField() string {
	f := c.method("runtime/orm/schema", "Schema", "EncodePrimaryKey")
	if f == nil {
		return ""
	}
	n := c.P.fn("runtime/orm/schema", "NewSchema")
	if n == nil {
		return ""
	}
	def := deepStrip(c.params(n)[1])
	var cand map[string]bool
	for _, p := range c.run(n, Cfg{Opaque: schemaOpaque}) {
		facts, ok := p.success()
		if !ok || len(p.RetDeep) < 1 {
			continue
		}
		sg, k := decideIn(facts, mkField(def, "Singleton", nil))
		o := strip(p.RetDeep[0])
		if o.Op != "obj" {
			continue
		}
		cur := map[string]bool{}
		for i, nm := range strings.Split(o.S, ";")[1:] {
			v := deepStrip(o.A[i])
			if b, ok := v.boolVal(); ok && k && b == sg || v == mkField(def, "Singleton", nil) {
				cur[nm] = true
			}
		}
		if cand == nil {
			cand = cur
		}
		for x := range cand {
			if !cur[x] {
				delete(cand, x)
			}
		}
	}
	for _, x := range sortedKeys(cand) {
		return x
	}
	return ""
}

// storeErrors: the runtime tells absence and presence apart from other errors.
func (c *Ctx) storeErrors() {
	for _, m := range []string{"Get", "List", "Create", "Update", "Delete"} {
		f := c.method("runtime", "Runtime", m)
		if f == nil {
			continue
		}
		for _, p := range c.run(f, Cfg{Opaque: ormOpaque}) {
			if p.Outcome != "return" {
				continue
			}
			for _, e := range p.Events {
				if e.Kind != "call" || !strings.HasPrefix(e.Fn, "(runtime/orm.Store).") || !e.failedIn(p.facts) {
					continue
				}
				r := p.errRet()
				n, k := isNilIn(p.facts, r)
				c.Check(k && !n, "store-error-returned", fname(f)+"→"+e.Fn, p.Pos, "%s can succeed although the store failed", fname(f))
				se := deepStrip(e.Res[len(e.Res)-1])
				for _, pr := range [][2]string{{"runtime/orm.ErrNotFound", "runtime/errors.ErrNotFound"}, {"runtime/orm.ErrAlreadyExists", "runtime/errors.ErrAlreadyExists"}} {
					is := false
					for a, v := range p.facts {
						if v && a.Op == "call" && strings.HasSuffix(a.S, "errors.Is") && len(a.A) == 2 && a.A[0] == se && len(wrappedErrs(a.A[1])) == 1 && wrappedErrs(a.A[1])[0] == pr[0] {
							is = true
						}
					}
					if !is {
						continue
					}
					ok := false
					for _, w := range wrappedErrs(r) {
						ok = ok || w == pr[1]
					}
					c.Check(ok, "store-error-kind", fname(f)+" "+pr[0], p.Pos, "%s turns %s into %v", fname(f), pr[0], r)
				}
			}
		}
	}
}
