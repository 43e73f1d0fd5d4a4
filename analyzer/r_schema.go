package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "The table of key encoders is read from the package initialiser and every method of every encoder is enumerated: the byte encoding must be injective on the kind's values and use the accessor of the kind, text must be parsed with the kind's base and width, Go values must have exactly the kind's type; encoders that panic may exist only for kinds the schema refuses.", c18)
	register("C19", "Every path that builds a schema or registers an object is enumerated: success requires the facts that make the definition valid, and the schema produced is exercised (its accessors are run on it) to show that its keys, indexes and encoders are those of the definition; the registry stores it once under the name and API definition with which it is looked up.", c19)
}

const (
	protoreflectPkg = "google.golang.org/protobuf/reflect/protoreflect"
	fnNewKind       = "pkg/protoutils/kindencoder.NewKindEncoder"
	fnHasMap        = "pkg/protoutils/desc.HasMap"
	fnHasKinds      = "pkg/protoutils/desc.HasKinds"
)

type kindInfo struct {
	name, accessor, ctor, goType string
	width                        int
}

// kinds of protoreflect, with how their values are represented.
var kindInfos = map[string]kindInfo{
	"BoolKind":     {"bool", "Bool", "ValueOfBool", "bool", 1},
	"EnumKind":     {"enum", "Enum", "ValueOfEnum", "", 32},
	"Int32Kind":    {"int32", "Int", "ValueOfInt32", "int32", 32},
	"Sint32Kind":   {"sint32", "Int", "ValueOfInt32", "int32", 32},
	"Uint32Kind":   {"uint32", "Uint", "ValueOfUint32", "uint32", 32},
	"Int64Kind":    {"int64", "Int", "ValueOfInt64", "int64", 64},
	"Sint64Kind":   {"sint64", "Int", "ValueOfInt64", "int64", 64},
	"Uint64Kind":   {"uint64", "Uint", "ValueOfUint64", "uint64", 64},
	"Sfixed32Kind": {"sfixed32", "Int", "ValueOfInt32", "int32", 32},
	"Fixed32Kind":  {"fixed32", "Uint", "ValueOfUint32", "uint32", 32},
	"Sfixed64Kind": {"sfixed64", "Int", "ValueOfInt64", "int64", 64},
	"Fixed64Kind":  {"fixed64", "Uint", "ValueOfUint64", "uint64", 64},
	"StringKind":   {"string", "String", "ValueOfString", "string", 0},
	"BytesKind":    {"bytes", "Bytes", "ValueOfBytes", "[]byte", 0},
}

// kindNames maps protoreflect.Kind values to constant names.
func (c *Ctx) kindNames() map[int64]string {
	out := map[int64]string{}
	for _, pk := range c.P.SSA.AllPackages() {
		if pk.Pkg.Path() != protoreflectPkg {
			continue
		}
		n, _ := pk.Pkg.Scope().Lookup("Kind").Type().(*types.Named)
		if n == nil {
			continue
		}
		for _, nm := range pk.Pkg.Scope().Names() {
			if k, ok := pk.Pkg.Scope().Lookup(nm).(*types.Const); ok && types.Identical(k.Type(), n) {
				if v, ok := constant.Int64Val(k.Val()); ok {
					out[v] = nm
				}
			}
		}
	}
	return out
}

// initOf finds the functions that initialise the package of a global.
func (c *Ctx) initOf(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.allFuncs {
		if fnPkgPath(f) == pkg && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			out = append(out, f)
		}
	}
	return out
}

// constSlice reads a package variable initialised with a slice of constants.
func (c *Ctx) constSlice(pkg, name string) (map[int64]bool, bool) {
	for _, f := range c.initOf(modPath + "/" + pkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.Name() != name {
					continue
				}
				sl, ok := st.Val.(*ssa.Slice)
				if !ok {
					return nil, false
				}
				out := map[int64]bool{}
				for _, r := range *sl.X.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					for _, u := range *ia.Referrers() {
						s, ok := u.(*ssa.Store)
						if !ok {
							continue
						}
						k, ok := s.Val.(*ssa.Const)
						if !ok {
							return nil, false
						}
						v, _ := constant.Int64Val(k.Value)
						out[v] = true
					}
				}
				return out, true
			}
		}
	}
	return nil, false
}

// mapTable reads a package variable initialised with a map literal from
// constants to values of concrete types.
func (c *Ctx) mapTable(pkg, name string) map[int64]types.Type {
	out := map[int64]types.Type{}
	for _, f := range c.initOf(modPath + "/" + pkg) {
		var m ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && g.Name() == name {
						m = st.Val
					}
				}
			}
		}
		for _, mu := range mapUpdates(f) {
			if u, ok := mu.Map.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); !ok || g.Name() != name {
					continue
				}
			} else if m == nil || mu.Map != m {
				continue
			}
			k, ok := mu.Key.(*ssa.Const)
			mi, ok2 := mu.Value.(*ssa.MakeInterface)
			if ok && ok2 {
				v, _ := constant.Int64Val(k.Value)
				out[v] = mi.X.Type()
			}
		}
	}
	return out
}

func mapUpdates(f *ssa.Function) (out []*ssa.MapUpdate) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok {
				out = append(out, u)
			}
		}
	}
	return
}

// encoders: kind → encoder type.
func (c *Ctx) encoders() map[int64]types.Type {
	f := c.fn("pkg/protoutils/kindencoder", "NewKindEncoder")
	if f == nil {
		return nil
	}
	out := map[int64]types.Type{}
	kind := deepStrip(c.params(f)[0])
	for _, p := range c.run(f, Cfg{}) {
		facts, ok := p.success()
		if p.Outcome != "return" {
			c.Fail("kind-lookup:"+fname(f), p.Pos, "looking up an encoder panics")
			continue
		}
		if !ok {
			continue
		}
		r := p.Ret[0]
		if x := deepStrip(r); x.Op == "maplookup" && x.A[1] == kind {
			known, k := decideIn(facts, mk("mapok", "", types.Typ[types.Bool], x.A[0], x.A[1]))
			c.Check(k && known, "kind-lookup", fname(f), p.Pos, "an encoder is returned although the kind may have none")
			g := x.A[0]
			for g.Op == "deref" {
				g = g.A[0]
			}
			nm := g.S[strings.LastIndex(g.S, ".")+1:]
			for k, t := range c.mapTable("pkg/protoutils/kindencoder", nm) {
				out[k] = t
			}
			continue
		}
		ct, _ := boxed(r)
		if !c.Check(ct != nil, "kind-lookup", fname(f), p.Pos, "the encoder %v returned is not known", r) {
			continue
		}
		for fa, v := range facts {
			if v && fa.Op == "eq" && fa.A[0] == kind {
				if n, ok := fa.A[1].intVal(); ok {
					out[n] = ct
				}
			}
			if v && fa.Op == "eq" && fa.A[1] == kind {
				if n, ok := fa.A[0].intVal(); ok {
					out[n] = ct
				}
			}
		}
	}
	return out
}

func c18(c *Ctx) {
	names := c.kindNames()
	encs := c.encoders()
	c.Check(len(encs) >= 7, "kind-encoders", "table", "-", "only %d key encoders were found", len(encs))
	bad, ok := c.constSlice("runtime/orm/schema", "UnsupportedKinds")
	c.Check(ok && len(bad) > 0, "unsupported-kinds", "list", "-", "the list of kinds refused by schemas was not found")
	for k := int64(0); k < 64; k++ {
		t := encs[k]
		if t == nil || bad[k] {
			continue // not a key, or refused (C19)
		}
		ki, ok := kindInfos[names[k]]
		if !c.Check(ok && ki.goType != "", "kind-encoders", names[k], "-", "there is an encoder for kind %s, whose values are not known to have a key encoding", names[k]) {
			continue
		}
		c.kindEncoder(k, ki, t)
	}
}

func (c *Ctx) kindEncoder(k int64, ki kindInfo, t types.Type) {
	get := func(m string) *ssa.Function {
		f := c.methodFor(t, m)
		if f == nil || f.Blocks == nil {
			c.Fail("anchor:"+ki.name+"."+m, "-", "method %s of the encoder of %s not found", m, ki.name)
			return nil
		}
		return f
	}
	if f := get("Kind"); f != nil {
		for _, p := range c.run(f, Cfg{}) {
			ok := p.Outcome == "return"
			if ok {
				n, isC := deepStrip(p.Ret[0]).intVal()
				ok = isC && n == k
			}
			c.Check(ok, "encoder-kind", ki.name, p.Pos, "the encoder registered for %s reports another kind or panics", ki.name)
		}
	}
	if f := get("EncodeValueToBytes"); f != nil {
		v := deepStrip(c.params(f)[1])
		perBool := map[bool]string{}
		for _, p := range c.run(f, Cfg{}) {
			if !c.Check(p.Outcome == "return", "encoder-total", ki.name, p.Pos, "encoding a %s panics", ki.name) {
				continue
			}
			if ki.goType == "bool" {
				// a case for each of the two values
				b, k := decideIn(p.facts, mk("call", "("+protoreflectPkg+".Value).Bool", types.Typ[types.Bool], v))
				if bs, rest := leadBytes(pieces(p.RetDeep[0])); k && len(rest) == 0 && len(bs) > 0 {
					prev, seen := perBool[b]
					c.Check(!seen || prev == string(bs), "encoder-injective", ki.name, p.Pos, "a bool has several encodings")
					other, seen := perBool[!b]
					c.Check(!seen || other != string(bs), "encoder-injective", ki.name, p.Pos, "true and false have the same encoding %v", bs)
					perBool[b] = string(bs)
					continue
				}
			}
			why := injective(ki, p.RetDeep[0], v)
			c.Check(why == "", "encoder-injective", ki.name, p.Pos, "different %s values can have the same encoding %v: %s", ki.name, p.RetDeep[0], why)
			// the same form on every path: no fact about the value may be needed
			c.Check(!mentions(p, v), "encoder-injective", ki.name, p.Pos, "the encoding of a %s depends on the value, so that encodings can coincide", ki.name)
		}
	}
	if f := get("EncodeString"); f != nil {
		s := deepStrip(c.params(f)[1])
		any := false
		for _, p := range c.run(f, Cfg{}) {
			if !c.Check(p.Outcome == "return", "encoder-total", ki.name, p.Pos, "parsing a %s panics", ki.name) {
				continue
			}
			facts, ok := p.success()
			if !ok {
				pe := false
				for fa, v := range p.facts {
					pe = pe || !v && fa.Op == "eq" && fa.A[1].isNil()
				}
				c.Check(pe, "encoder-parse", ki.name, p.Pos, "text of a %s is refused although it was parsed", ki.name)
				continue
			}
			any = true
			why := parsedText(ki, p, facts, deepStrip(p.RetDeep[0]), s)
			c.Check(why == "", "encoder-parse", ki.name, p.Pos, "text of a %s becomes %v: %s", ki.name, p.RetDeep[0], why)
		}
		c.Check(any, "encoder-parse", ki.name, c.P.pos(f.Pos()), "text is never a %s", ki.name)
	}
	if f := get("EncodeInterface"); f != nil {
		i := deepStrip(c.params(f)[1])
		any := false
		for _, p := range c.run(f, Cfg{}) {
			if !c.Check(p.Outcome == "return", "encoder-total", ki.name, p.Pos, "encoding a Go value as %s panics", ki.name) {
				continue
			}
			_, ok := p.success()
			is, known := false, false
			for fa, v := range p.facts {
				if fa.Op == "isa" && fa.A[0] == i {
					if fa.S == ki.goType || fa.S == "[]uint8" && ki.goType == "[]byte" {
						is, known = v, true
					} else if v {
						is, known = false, true
					}
				}
			}
			c.Check(known && is == ok, "encoder-type", ki.name, p.Pos, "a Go value is accepted (%v) as %s although its type is not exactly %s", ok, ki.name, ki.goType)
			if ok {
				any = true
				r := deepStrip(p.RetDeep[0])
				c.Check(r.Op == "call" && r.S == protoreflectPkg+"."+ki.ctor && len(r.A) == 1 && r.A[0] == i, "encoder-type", ki.name, p.Pos, "a Go value becomes %v", r)
			}
		}
		c.Check(any, "encoder-type", ki.name, c.P.pos(f.Pos()), "no Go value is a %s", ki.name)
	}
}

// mentions: the path decided something about t.
func mentions(p *Path, t *T) bool {
	for f := range p.facts {
		if contains(f, t) {
			return true
		}
	}
	return false
}

func bits(s string) int {
	switch s {
	case "uint64", "int64", "int", "uint":
		return 64
	case "uint32", "int32":
		return 32
	case "uint16", "int16":
		return 16
	case "uint8", "int8", "byte":
		return 8
	}
	return 0
}

// injective: r is an injective encoding of the value v of the kind.
func injective(ki kindInfo, r, v *T) string {
	ps := pieces(r)
	_, ps = leadBytes(ps)
	if len(ps) != 1 {
		return "it is not the encoding of one value"
	}
	t := ps[0].t
	switch ps[0].kind {
	case "varint":
		t = ps[0].t
	case "val", "lenval":
		if ki.accessor == "String" || ki.accessor == "Bytes" {
			for t.Op == "conv" && (t.S == "[]byte" || t.S == "string" || t.S == "[]uint8") {
				t = t.A[0]
			}
			break
		}
		if t.Op == "call" && len(t.A) == 3 && (strings.HasSuffix(t.S, ".AppendUint64") || strings.HasSuffix(t.S, ".AppendUint32") && ki.width <= 32) {
			t = t.A[2]
			break
		}
		return "it is not a known encoding"
	default:
		return "it is not a known encoding"
	}
	for {
		if t.Op == "conv" && ki.width > 0 {
			if bits(t.S) < ki.width {
				return "it is narrowed to " + t.S
			}
			t = t.A[0]
			continue
		}
		if t.Op == "call" && (strings.HasSuffix(t.S, "protowire.EncodeZigZag") || strings.HasSuffix(t.S, "protowire.EncodeBool")) {
			t = t.A[0]
			continue
		}
		break
	}
	if t.Op == "call" && t.S == "("+protoreflectPkg+".Value)."+ki.accessor && len(t.A) == 1 && t.A[0] == v {
		return ""
	}
	return "it encodes " + t.String()
}

// parsedText: r is the value of the kind which the text s denotes.
func parsedText(ki kindInfo, p *Path, facts map[*T]bool, r, s *T) string {
	if r.Op != "call" || r.S != protoreflectPkg+"."+ki.ctor || len(r.A) != 1 {
		return "it is not made with " + ki.ctor
	}
	x := r.A[0]
	for x.Op == "conv" {
		if ki.width > 0 && bits(x.S) < ki.width {
			return "it is narrowed to " + x.S
		}
		x = x.A[0]
	}
	if ki.goType == "string" {
		if x == s {
			return ""
		}
		return "it is not the text"
	}
	if ki.goType == "[]byte" {
		for _, e := range p.callsLike(func(n string) bool { return strings.HasPrefix(n, "(*encoding/base64.Encoding).DecodeString") }) {
			if same(e.Res[0], x) && same(e.Args[1], s) && e.okIn(facts) {
				return ""
			}
		}
		return "it is not decoded from the text"
	}
	if x.Op != "call" || !strings.HasSuffix(x.S, "#0") || x.A[0] != s {
		return "it is not parsed from the text"
	}
	er := termsOf(p, func(y *T) bool { return y.Op == "call" && y.S == x.S[:len(x.S)-1]+"1" && sameArgs(x, y) })
	n, k := false, false
	if er != nil {
		n, k = isNilIn(facts, er)
	}
	if !k || !n {
		return "parsing may have failed"
	}
	switch strings.TrimSuffix(x.S, "#0") {
	case "strconv.ParseBool":
		if ki.goType == "bool" {
			return ""
		}
	case "strconv.ParseInt":
		if strings.HasPrefix(ki.goType, "int") && x.A[1].intIs(10) && x.A[2].intIs(int64(ki.width)) {
			return ""
		}
	case "strconv.ParseUint":
		if strings.HasPrefix(ki.goType, "uint") && x.A[1].intIs(10) && x.A[2].intIs(int64(ki.width)) {
			return ""
		}
	}
	return "it is parsed in another base or width: " + x.String()
}

// ---------------------------------------------------------------- schemas

func schemaOpaque(n string) bool { return n == fnHasMap || n == fnHasKinds || n == fnNewKind }

func c19(c *Ctx) {
	bad, _ := c.constSlice("runtime/orm/schema", "UnsupportedKinds")
	names := c.kindNames()
	for k, n := range names {
		switch n {
		case "FloatKind", "DoubleKind", "Sint32Kind", "Sint64Kind", "Fixed32Kind", "Fixed64Kind", "Sfixed32Kind", "Sfixed64Kind", "GroupKind":
			c.Check(bad[k], "unsupported-kinds", n, "-", "state objects with fields of %s are not refused", n)
		}
	}
	c.hasMapSound()
	c.hasKindsSound()
	c.schemaBuilt()
	c.registry()
}

func descOf(o *T) func(*T) bool {
	return func(t *T) bool {
		t = deepStrip(t)
		return t.Op == "call" && strings.HasSuffix(t.S, ").Descriptor") && t.A[0].Op == "call" && strings.HasSuffix(t.A[0].S, ").ProtoReflect") && t.A[0].A[0] == deepStrip(o)
	}
}

// fieldOf: the descriptor of o's field with the JSON name.
func fieldOf(t, o *T) (name *T, ok bool) {
	t = deepStrip(t)
	if t.Op != "call" || !strings.HasSuffix(t.S, ").ByJSONName") || len(t.A) != 2 {
		return nil, false
	}
	fs := t.A[0]
	if fs.Op != "call" || !strings.HasSuffix(fs.S, ").Fields") || !descOf(o)(fs.A[0]) {
		return nil, false
	}
	return t.A[1], true
}

// fieldEncoder checks that the field with the JSON name exists, is not
// repeated, and that enc is the encoder of its kind; returns the descriptor.
func (c *Ctx) fieldEncoder(p *Path, facts map[*T]bool, o, name, enc *T) (fd *T, repeated bool, why string) {
	for _, e := range p.calls(fnNewKind) {
		if !same(e.Res[0], enc) {
			continue
		}
		if !e.okIn(facts) {
			return nil, false, "its kind may have no encoder"
		}
		kd := deepStrip(e.Args[0])
		if kd.Op != "call" || !strings.HasSuffix(kd.S, ").Kind") {
			return nil, false, "the encoder is that of " + kd.String()
		}
		fd = kd.A[0]
		nm, ok := fieldOf(fd, o)
		if !ok || nm != deepStrip(name) {
			return nil, false, "the encoder is that of " + fd.String()
		}
		n, k := isNilIn(facts, fd)
		if !k || n {
			return nil, false, "the field may not exist"
		}
		rep, rk := false, false
		for fa, v := range facts {
			if fa.Op == "call" && strings.HasSuffix(fa.S, ").IsList") && fa.A[0] == fd {
				rep, rk = v, true
			}
			if fa.Op == "eq" && fa.A[0].Op == "call" && strings.HasSuffix(fa.A[0].S, ").Cardinality") && fa.A[0].A[0] == fd && fa.A[1].intIs(3) {
				rep, rk = v, true
			}
		}
		return fd, !rk || rep, ""
	}
	return nil, false, "it is not the encoder of a kind"
}

func lenZeroOf(facts map[*T]bool, x *T) (bool, bool) {
	if s, ok := x.strVal(); ok {
		return s == "", true
	}
	if v, k := lenZeroIn(facts, x); k {
		return v, k
	}
	for f, v := range facts {
		if f.Op == "eq" && f.A[0] == x {
			if s, ok := f.A[1].strVal(); ok && s == "" {
				return v, true
			}
		}
	}
	return false, false
}

func (c *Ctx) schemaBuilt() {
	f := c.fn("runtime/orm/schema", "NewSchema")
	if f == nil {
		return
	}
	a := c.params(f)
	o, def := deepStrip(a[0]), deepStrip(a[1])
	pk := mkField(def, "PrimaryKey", types.Typ[types.String])
	var okSingle, okPlain, okIndexed bool
	for _, p := range c.run(f, Cfg{Opaque: schemaOpaque}) {
		if p.Outcome != "return" {
			c.Fail("schema-panics:"+fname(f), p.Pos, "building a schema panics")
			continue
		}
		facts, ok := p.success()
		sg, sk := decideIn(p.facts, mkField(def, "Singleton", nil))
		sec := secondaryKeys(p, def)
		idx, done := elems(p.facts, sec)
		if !ok {
			is := false
			for _, s := range wrappedErrs(p.errRet()) {
				is = is || strings.HasPrefix(s, "runtime/orm/schema.Err")
			}
			c.Check(is, "schema-error", fname(f), p.Pos, "a refused definition is reported with %v", p.errRet())
			c.Check(c.refusable(p, o, def, sg, sk, idx), "schema-refused", fname(f), p.Pos, "a definition is refused although nothing is wrong with it")
			continue
		}
		// valid definitions only
		hm, hk := false, false
		for _, e := range p.calls(fnHasMap) {
			if v, k := decideIn(facts, deepStrip(e.Res[0])); k && !v && descOf(o)(e.Args[0]) {
				hm = true
			}
		}
		for _, e := range p.calls(fnHasKinds) {
			if v, k := decideIn(facts, deepStrip(e.Res[0])); k && !v && descOf(o)(e.Args[0]) {
				x := deepStrip(e.Deep[1])
				for x.Op == "deref" {
					x = x.A[0]
				}
				hk = hk || strings.HasSuffix(x.S, "runtime/orm/schema.UnsupportedKinds")
			}
		}
		c.Check(hm, "schema-maps", fname(f), p.Pos, "an object which may have map fields is accepted")
		c.Check(hk, "schema-kinds", fname(f), p.Pos, "an object which may have fields of unsupported kinds is accepted")
		if !c.Check(sk, "schema-singleton", fname(f), p.Pos, "a definition is accepted without looking at whether it is a singleton") {
			continue
		}
		if sg {
			pe, k1 := lenZeroOf(facts, pk)
			se, k2 := lenZeroOf(facts, sec)
			okSingle = true
			c.Check(k1 && pe && k2 && se, "schema-singleton", fname(f), p.Pos, "a singleton with a primary key or secondary keys is accepted")
		}
		if !c.Check(done, "schema-secondary", fname(f), p.Pos, "a definition is accepted before all its secondary keys were looked at") {
			continue
		}
		sch := p.Ret[0]
		c.schemaBehaves(p, facts, sch, o, def, sg, sec, idx)
		if !sg {
			okPlain = okPlain || len(idx) == 0
			okIndexed = okIndexed || len(idx) > 1
		}
	}
	c.Check(okSingle, "schema-possible", fname(f)+" singleton", c.P.pos(f.Pos()), "no singleton is accepted")
	c.Check(okPlain, "schema-possible", fname(f)+" plain", c.P.pos(f.Pos()), "no object without secondary keys is accepted")
	c.Check(okIndexed, "schema-possible", fname(f)+" indexed", c.P.pos(f.Pos()), "no object with several secondary keys is accepted")
}

// secondaryKeys: the term of the definition's secondary keys (with its type).
func secondaryKeys(p *Path, def *T) *T {
	r := termsOf(p, func(x *T) bool { return x.Op == "field" && x.S == "SecondaryKeys" && x.A[0] == def })
	if r == nil {
		r = mkField(def, "SecondaryKeys", nil)
	}
	return r
}

// refusable: the path knows something that makes the definition invalid.
func (c *Ctx) refusable(p *Path, o, def *T, sg, sk bool, idx []*T) bool {
	for fa, v := range p.facts {
		switch {
		case v && fa.Op == "res" && strings.HasPrefix(fa.S, "Has"):
			return true
		case v && fa.Op == "eq" && fa.A[1].isNil():
			if _, ok := fieldOf(fa.A[0], o); ok {
				return true // no such field
			}
		case !v && fa.Op == "eq" && fa.A[1].isNil() && fa.A[0].Op == "res" && strings.HasPrefix(fa.A[0].S, "NewKindEncoder"):
			return true
		case v && fa.Op == "call" && strings.HasSuffix(fa.S, ").IsList"):
			return true
		case v && fa.Op == "mapok":
			return true // a secondary key seen before
		case v && fa.Op == "eq" && fa.A[0].Op == "elem" && fa.A[1].Op == "elem":
			return true
		}
	}
	pe, k1 := lenZeroOf(p.facts, mkField(def, "PrimaryKey", types.Typ[types.String]))
	se, k2 := lenZeroOf(p.facts, secondaryKeys(p, def))
	if sk && sg && (k1 && !pe || k2 && !se || len(idx) > 0) {
		return true
	}
	return sk && !sg && k1 && pe
}

// schemaBehaves runs the accessors of a schema just built.
func (c *Ctx) schemaBehaves(p *Path, facts map[*T]bool, sch, o, def *T, sg bool, sec *T, idx []*T) {
	f := "runtime/orm/schema.NewSchema"
	name := func(t *T) bool {
		t = deepStrip(t)
		for t.Op == "conv" {
			t = t.A[0]
		}
		return t.Op == "call" && t.S == "core/meta.Name" && len(t.A) == 1 && t.A[0] == o || isAPIName(t, o)
	}
	one := func(m string) *Path {
		ps := c.runMethodOn(p, sch, "runtime/orm/schema", "Schema", m, nil)
		if len(ps) != 1 || ps[0].Outcome != "return" {
			c.Fail("schema-accessor:"+m, p.Pos, "%s of a new schema does not simply return", m)
			return nil
		}
		return ps[0]
	}
	if q := one("HasIndexes"); q != nil {
		b, k := deepStrip(q.Ret[0]).boolVal()
		if !k {
			// len(secondary keys) compared
			b, k = decideIn(p.facts, deepStrip(q.Ret[0]))
		}
		c.Check(k && b == (len(idx) > 0), "schema-has-indexes", f, p.Pos, "HasIndexes is %v for a schema with %d secondary keys", q.Ret[0], len(idx))
	}
	if q := one("TypePrefix"); q != nil {
		ps := norm(pieces(q.RetDeep[0]))
		c.Check(len(ps) == 1 && name(ps[0].t), "schema-type-prefix", f, p.Pos, "the type prefix is %v", q.RetDeep[0])
	}
	if q := one("Name"); q != nil {
		c.Check(name(q.RetDeep[0]), "schema-name", f, p.Pos, "the schema's name is %v", q.RetDeep[0])
	}
	if q := one("NewStateObject"); q != nil {
		r := deepStrip(q.RetDeep[0])
		ok := r.Op == "call" && strings.HasSuffix(r.S, ").NewStateObject") && r.A[0] == o
		for _, e := range q.Events {
			ok = ok || e.Kind == "call" && strings.HasSuffix(e.Fn, ").NewStateObject") && same(e.Recv, o) && same(e.Res[0], r)
		}
		c.Check(ok, "schema-new-object", f, p.Pos, "NewStateObject of a schema returns %v", r)
	}
	// primary key
	if !sg {
		ob := mk("param", "o'", o.Typ)
		for _, q := range c.runMethodOn(p, sch, "runtime/orm/schema", "Schema", "EncodePrimaryKey", []*T{nil, ob}) {
			if !c.Check(q.Outcome == "return", "schema-primary-key", f, q.Pos, "EncodePrimaryKey panics") {
				continue
			}
			enc, fd, why := encodedField(q, q.RetDeep[0], ob)
			if why == "" {
				var fd2 *T
				rep := false
				fd2, rep, why = c.fieldEncoder(p, facts, o, mkField(def, "PrimaryKey", types.Typ[types.String]), enc)
				if why == "" && rep {
					why = "the field may be repeated"
				}
				if why == "" && fd2 != fd {
					why = "the encoder is not that of the field"
				}
			}
			c.Check(why == "", "schema-primary-key", f, p.Pos, "the primary key of objects is %v: %s", q.RetDeep[0], why)
		}
	}
	// indexes
	q := one("Indexes")
	if q == nil {
		return
	}
	raw, known := rawItems(q, q.Ret[0])
	if !c.Check(known && len(raw) == len(idx), "schema-indexes", f, p.Pos, "a schema with %d secondary keys has %d indexes (%v)", len(idx), len(raw), q.RetDeep[0]) {
		return
	}
	for n, ix := range raw {
		key := deepStrip(mkElem(sec, idx[n], types.Typ[types.String]))
		// no other key with the same name
		for m := 0; m < n; m++ {
			c.Check(distinct(p, facts, deepStrip(mkElem(sec, idx[m], types.Typ[types.String])), key), "schema-duplicate", f, p.Pos, "secondary keys %v and %v may be the same", idx[m], idx[n])
		}
		for _, r := range c.runMethodOn(q, ix, "runtime/orm/schema", "Indexer", "Prefix", nil) {
			ps := norm(pieces(r.RetDeep[0]))
			good := r.Outcome == "return" && len(ps) == 1
			if good {
				t := ps[0].t
				for t.Op == "conv" {
					t = t.A[0]
				}
				good = t == key
			}
			c.Check(good, "index-prefix", f, p.Pos, "the prefix of the index of %v is %v", key, r.RetDeep)
		}
		ob := mk("param", "o'", o.Typ)
		for _, r := range c.runMethodOn(q, ix, "runtime/orm/schema", "Indexer", "MustEncodeFromObject", []*T{nil, ob}) {
			if !c.Check(r.Outcome == "return", "index-encoder", f, r.Pos, "encoding an indexed field panics") {
				continue
			}
			enc, fd, why := encodedField(r, r.RetDeep[0], ob)
			if why == "" {
				var fd2 *T
				rep := false
				fd2, rep, why = c.fieldEncoder(p, facts, o, key, enc)
				c.Check(why != "" || !rep, "secondary-repeated", f, p.Pos, "a repeated field is accepted as secondary key %v; indexing an object then panics", idx[n])
				if why == "" && fd2 != fd {
					why = "the encoder is not that of the field"
				}
				// lookups use the same encoder
				for m, how := range map[string]string{"EncodeInterface": "EncodeInterface", "EncodeString": "EncodeString"} {
					for _, s := range c.runMethodOn(q, ix, "runtime/orm/schema", "Indexer", m, nil) {
						sf, sok := s.success()
						if s.Outcome != "return" {
							c.Fail("index-encoder:"+f, s.Pos, "%s panics", m)
							continue
						}
						arg := c.params(c.P.method("runtime/orm/schema", "Indexer", m))[1]
						if sok {
							w := encodedFrom(s, sf, s.RetDeep[0], enc, how, arg)
							c.Check(w == "", "index-lookup-encoder", f+" "+m, s.Pos, "%s encodes differently from what is indexed: %s", m, w)
						} else {
							bad := false
							for _, e := range s.calls(kePfx + how) {
								bad = bad || e.failedIn(s.facts)
							}
							c.Check(bad, "index-lookup-encoder", f+" "+m, s.Pos, "%s fails for a valid value", m)
						}
					}
				}
			}
			c.Check(why == "", "index-encoder", f, p.Pos, "the value indexed for %v is %v: %s", key, r.RetDeep[0], why)
		}
		// found by name
		for _, r := range c.runMethodOn(p, sch, "runtime/orm/schema", "Schema", "Indexer", []*T{nil, key}) {
			_, rok := r.success()
			c.Check(rok && r.Outcome == "return" && same(r.Ret[0], ix), "schema-indexer", f, p.Pos, "the index of %v is not found by its name", key)
		}
	}
	// unknown fields are not found
	for _, r := range c.runMethodOn(p, sch, "runtime/orm/schema", "Schema", "Indexer", nil) {
		if _, rok := r.success(); rok && r.Outcome == "return" {
			hit := false
			arg := deepStrip(c.params(c.P.method("runtime/orm/schema", "Schema", "Indexer"))[1])
			for fa, v := range r.facts {
				hit = hit || v && fa.Op == "mapok" && fa.A[1] == arg || v && fa.Op == "eq" && (fa.A[0] == arg || fa.A[1] == arg)
			}
			c.Check(hit, "schema-indexer", f, r.Pos, "an index is returned for any field name")
		}
	}
}

func isAPIName(t, o *T) bool {
	return t.Op == "call" && strings.HasSuffix(t.S, "APIDefinition).Name") && len(t.A) == 1 && t.A[0].Op == "call" && strings.HasSuffix(t.A[0].S, ").APIDefinition") && t.A[0].A[0] == o
}

// distinct: two terms are known to differ, directly or because one was not in
// the map to which the other was added.
func distinct(p *Path, facts map[*T]bool, a, b *T) bool {
	for fa, v := range facts {
		if !v && fa.Op == "eq" && (fa.A[0] == a && fa.A[1] == b || fa.A[0] == b && fa.A[1] == a) {
			return true
		}
		if !v && fa.Op == "mapok" && fa.A[1] == b {
			if _, ok := p.st.mem[mk("mapent", "", nil, fa.A[0], a)]; ok {
				return true
			}
		}
	}
	return false
}

// rawItems: the elements of a slice value at the end of a path, as they are
// stored (not looked into), by position.
func rawItems(p *Path, s *T) ([]*T, bool) {
	s = strip(s)
	for s.Op == "slice" {
		s = strip(s.A[0])
	}
	switch s.Op {
	case "nil":
		return nil, true
	case "slicelit":
		return s.A, true
	case "append":
		a, ok1 := rawItems(p, s.A[0])
		b, ok2 := rawItems(p, s.A[1])
		return append(append([]*T(nil), a...), b...), ok1 && ok2
	}
	at := map[*T]*T{}
	for k, v := range p.st.mem {
		if k.Op == "iaddr" && k.A[0] == s {
			at[k.A[1]] = v
		}
	}
	var order []*T
	for k := range at {
		order = append(order, k)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var out []*T
	for _, k := range order {
		out = append(out, at[k])
	}
	return out, s.Op == "alloc"
}

// runMethodOn runs a method on a value, from the end of a path. Arguments may
// be nil for symbolic ones.
func (c *Ctx) runMethodOn(p *Path, val *T, pkg, typ, name string, args []*T) []*Path {
	f := c.P.method(pkg, typ, name)
	if f == nil {
		c.Fail("anchor:"+typ+"."+name, "-", "method %s.%s not found", typ, name)
		return nil
	}
	st := p.st.clone()
	st.events, st.flist, st.frames = nil, nil, nil
	cfg := Cfg{Opaque: schemaOpaque}
	as := c.P.engine(cfg).params(f)
	as[0] = val
	for i, x := range args {
		if x != nil {
			as[i] = x
		}
	}
	return c.runFrom(st, f, as, cfg)
}

// ---------------------------------------------------------------- descriptors

// hasMapSound: no map field is reported only when every field is known not to
// be one and the same holds for the messages in fields.
func (c *Ctx) hasMapSound() {
	root := c.fn("pkg/protoutils/desc", "HasMap")
	if root == nil {
		return
	}
	// the functions that do the work: HasMap and what it calls in its package
	todo := []*ssa.Function{root}
	seen := map[*ssa.Function]bool{}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		desc := c.descParam(f)
		if desc == nil {
			continue
		}
		for _, p := range c.run(f, Cfg{Opaque: func(n string) bool { return strings.HasPrefix(n, "pkg/protoutils/desc.") }}) {
			if p.Outcome != "return" {
				c.Fail("has-map:"+fname(f), p.Pos, "looking for map fields panics")
				continue
			}
			r := deepStrip(p.Ret[0])
			for _, e := range p.Events {
				if e.Kind == "call" && strings.HasPrefix(e.Fn, "pkg/protoutils/desc.") {
					if g := c.P.fn("pkg/protoutils/desc", e.Fn[strings.LastIndex(e.Fn, ".")+1:]); g != nil {
						todo = append(todo, g)
					}
				}
			}
			// delegation
			del := false
			for _, e := range p.Events {
				if e.Kind == "call" && strings.HasPrefix(e.Fn, "pkg/protoutils/desc.") && len(e.Res) == 1 && same(e.Res[0], r) && hasArg(e, desc) {
					del = true
				}
			}
			if del {
				continue
			}
			v, k := decideIn(p.facts, r)
			if !c.Check(k, "has-map", fname(f), p.Pos, "whether there is a map field is answered with %v", r) {
				continue
			}
			if v {
				why := false
				for fa, b := range p.facts {
					why = why || b && fa.Op == "call" && strings.HasSuffix(fa.S, ").IsMap")
					why = why || b && fa.Op == "res"
				}
				c.Check(why, "has-map", fname(f), p.Pos, "a map field is reported although none was found")
				continue
			}
			again := false
			for fa, b := range p.facts {
				if b && fa.Op == "mapok" && strip(fa.A[0]).Op == "param" && fa.A[1].Op == "call" && strings.HasSuffix(fa.A[1].S, ").FullName") && fa.A[1].A[0] == desc {
					again = true // being looked at already, or found clean
				}
			}
			if again && f != root {
				continue
			}
			idx, done := fieldIndices(p, desc)
			if !c.Check(done, "has-map", fname(f), p.Pos, "no map field is reported before all fields were looked at") {
				continue
			}
			for _, i := range idx {
				get := func(suffix string) (*T, bool, bool) { return fieldFact(p, desc, i, suffix) }
				_, isMap, mk1 := get(").IsMap")
				c.Check(mk1 && !isMap, "has-map", fname(f), p.Pos, "no map field is reported although field %v may be one", i)
				ismsg, mk2 := fieldIsMessage(p, desc, i)
				if mk2 && !ismsg {
					continue
				}
				clean := false
				for _, e := range p.Events {
					if e.Kind != "call" || !strings.HasPrefix(e.Fn, "pkg/protoutils/desc.") || len(e.Res) != 1 {
						continue
					}
					b, k := decideIn(p.facts, deepStrip(e.Res[0]))
					for _, a := range e.Args {
						clean = clean || k && !b && isFieldMessage(deepStrip(a), desc, i)
					}
				}
				for fa, b := range p.facts {
					if b && fa.Op == "mapok" && fa.A[1].Op == "call" && strings.HasSuffix(fa.A[1].S, ").FullName") && isFieldMessage(fa.A[1].A[0], desc, i) {
						clean = true // being looked at already, or found clean
					}
				}
				c.Check(clean, "has-map", fname(f), p.Pos, "no map field is reported although the message in field %v may have one", i)
			}
			// what is remembered as clean: this descriptor (being looked at) or
			// messages found clean
			for _, e := range p.Events {
				if e.Kind != "store" || e.Fn != "mapupdate" {
					continue
				}
				kx := deepStrip(e.Args[1])
				ok := false
				if kx.Op == "call" && strings.HasSuffix(kx.S, ").FullName") {
					ok = kx.A[0] == desc
					for _, x := range p.Events {
						if x.Kind == "call" && x.Seq < e.Seq && len(x.Res) == 1 && strings.HasPrefix(x.Fn, "pkg/protoutils/desc.") && hasArg(x, kx.A[0]) {
							b, k := decideIn(p.facts, deepStrip(x.Res[0]))
							ok = ok || k && !b
						}
					}
				}
				c.Check(ok, "has-map-memo", fname(f), e.Pos, "%v is remembered as free of map fields although it was not looked at", kx)
			}
		}
	}
}

func hasArg(e *Event, t *T) bool {
	for _, a := range e.Args {
		if deepStrip(a) == t {
			return true
		}
	}
	return false
}

func (c *Ctx) descParam(f *ssa.Function) *T {
	for i, p := range f.Params {
		if strings.HasSuffix(types.TypeString(p.Type(), nil), "protoreflect.MessageDescriptor") {
			return deepStrip(c.params(f)[i])
		}
	}
	return nil
}

func isFieldsLen(t, desc *T) bool {
	return t.Op == "call" && strings.HasSuffix(t.S, "FieldDescriptors).Len") && t.A[0].Op == "call" && strings.HasSuffix(t.A[0].S, ").Fields") && t.A[0].A[0] == desc
}

func isFieldGet(t, desc, i *T) bool {
	return t.Op == "call" && strings.HasSuffix(t.S, "FieldDescriptors).Get") && t.A[0].Op == "call" && strings.HasSuffix(t.A[0].S, ").Fields") && t.A[0].A[0] == desc && t.A[1] == i
}

func isFieldMessage(t, desc, i *T) bool {
	return t.Op == "call" && strings.HasSuffix(t.S, "FieldDescriptor).Message") && isFieldGet(t.A[0], desc, i)
}

// fieldIndices: the fields of the message visited on the path.
func fieldIndices(p *Path, desc *T) (idx []*T, done bool) {
	l := termsOf(p, func(x *T) bool { return isFieldsLen(x, desc) })
	if l == nil {
		return nil, false
	}
	idx, done = elemsLen(p.facts, l)
	// elemsLen leaves out index 0, which "eq(len,0)" decides for slices
	for f, v := range p.facts {
		if v && f.Op == "lt" && f.A[1] == l && f.A[0].intIs(0) {
			idx = append(idx, mkInt(0))
		}
	}
	return
}

func fieldFact(p *Path, desc, i *T, suffix string) (*T, bool, bool) {
	for f, v := range p.facts {
		if f.Op == "call" && strings.HasSuffix(f.S, suffix) && isFieldGet(f.A[0], desc, i) {
			return f, v, true
		}
	}
	return nil, false, false
}

// fieldIsMessage: is the kind of field i known to be (not) a message?
func fieldIsMessage(p *Path, desc, i *T) (bool, bool) {
	for f, v := range p.facts {
		if f.Op == "eq" && f.A[0].Op == "call" && strings.HasSuffix(f.A[0].S, "FieldDescriptor).Kind") && isFieldGet(f.A[0].A[0], desc, i) {
			if n, ok := f.A[1].intVal(); ok {
				if n == 11 {
					return v, true
				}
				if v {
					return n == 10, true
				}
			}
		}
		if f.Op == "eq" && f.A[1].isNil() && isFieldMessage(f.A[0], desc, i) {
			return !v, true
		}
	}
	return false, false
}

// hasKindsSound: a kind is reported absent only when no field has it.
func (c *Ctx) hasKindsSound() {
	f := c.fn("pkg/protoutils/desc", "HasKinds")
	if f == nil {
		return
	}
	a := c.params(f)
	desc, kinds := deepStrip(a[0]), deepStrip(a[1])
	g := c.P.fn("pkg/protoutils/desc", "HasKind")
	one := "pkg/protoutils/desc.HasKind"
	for _, p := range c.run(f, Cfg{Opaque: func(n string) bool { return n == one }}) {
		if p.Outcome != "return" {
			c.Fail("has-kinds:"+fname(f), p.Pos, "looking for kinds panics")
			continue
		}
		v, k := decideIn(p.facts, deepStrip(p.Ret[0]))
		if !c.Check(k, "has-kinds", fname(f), p.Pos, "whether there is a field of some kind is answered with %v", p.Ret[0]) || v {
			continue
		}
		idx, done := elems(p.facts, kinds)
		c.Check(done, "has-kinds", fname(f), p.Pos, "a message is reported not to have the kinds before all kinds were looked for")
		for _, i := range idx {
			ok := false
			for _, e := range p.calls(one) {
				b, bk := decideIn(p.facts, deepStrip(e.Res[0]))
				ok = ok || bk && !b && same(e.Args[0], desc) && same(e.Args[1], mkElem(kinds, i, nil))
			}
			c.Check(ok, "has-kinds", fname(f), p.Pos, "a message is reported not to have the kinds although kind %v was not looked for", i)
		}
	}
	if g == nil {
		c.Fail("anchor:HasKind", "-", "HasKind not found")
		return
	}
	b := c.params(g)
	desc, kind := deepStrip(b[0]), deepStrip(b[1])
	for _, p := range c.run(g, Cfg{Opaque: func(n string) bool { return n == one }}) {
		if p.Outcome != "return" {
			c.Fail("has-kind:"+fname(g), p.Pos, "looking for a kind panics")
			continue
		}
		v, k := decideIn(p.facts, deepStrip(p.Ret[0]))
		if !c.Check(k, "has-kind", fname(g), p.Pos, "whether there is a field of a kind is answered with %v", p.Ret[0]) || v {
			continue
		}
		idx, done := fieldIndices(p, desc)
		c.Check(done, "has-kind", fname(g), p.Pos, "a message is reported not to have a kind before all fields were looked at")
		for _, i := range idx {
			if _, m, mk1 := fieldFact(p, desc, i, ").IsMap"); mk1 && m {
				continue // refused anyhow
			}
			ok := false
			for fa, b := range p.facts {
				if b || fa.Op != "eq" {
					continue
				}
				x, y := fa.A[0], fa.A[1]
				if y != kind {
					x, y = y, x
				}
				ok = ok || y == kind && x.Op == "call" && strings.HasSuffix(x.S, "FieldDescriptor).Kind") && isFieldGet(x.A[0], desc, i)
			}
			c.Check(ok, "has-kind", fname(g), p.Pos, "a message is reported not to have a kind although field %v may have it", i)
		}
	}
}

// ---------------------------------------------------------------- registry

func (c *Ctx) registry() {
	add := c.method("runtime/orm/schema", "Registry", "AddObject")
	get := c.method("runtime/orm/schema", "Registry", "Get")
	byAPI := c.method("runtime/orm/schema", "Registry", "GetByAPIDefinition")
	kinds := c.method("runtime/orm/schema", "Registry", "ListKindsInGroup")
	if add == nil || get == nil || byAPI == nil || kinds == nil {
		return
	}
	// the object store registers exactly what it is given, in its registry
	newSch, addSch := c.fn("runtime/orm/schema", "NewSchema"), c.method("runtime/orm/schema", "Registry", "Add")
	if reg := c.method("runtime/orm", "Store", "RegisterObject"); reg != nil && newSch != nil && addSch != nil {
		ra := c.params(reg)
		n := 0
		for _, p := range c.run(reg, Cfg{Opaque: func(n string) bool { return n == fname(newSch) || n == fname(addSch) }}) {
			if !c.Check(p.Outcome == "return", "store-registers", fname(reg), p.Pos, "registering an object panics") {
				continue
			}
			es, as := p.calls(fname(newSch)), p.calls(fname(addSch))
			facts, ok := p.success()
			if !ok {
				fs := p.failedStep()
				r := p.eventOf(deepStrip(p.errRet()))
				c.Check(fs != nil || r != nil, "store-registers", fname(reg), p.Pos, "an object is refused although its registration did not fail")
				continue
			}
			n++
			if !c.Check(len(es) == 1 && len(as) == 1 && es[0].okIn(facts) && as[0].okIn(facts), "store-registers", fname(reg), p.Pos, "registering an object succeeds although it may not have been registered") {
				continue
			}
			r := deepStrip(as[0].Args[0])
			c.Check(r.Op == "field" && same(r.A[0], ra[0]), "store-registers", fname(reg), as[0].Pos, "objects are registered in %v", as[0].Args[0])
			c.Check(same(es[0].Args[0], ra[1]) && same(es[0].Args[1], ra[2]), "store-registers", fname(reg), es[0].Pos, "what is registered is %v with %v instead of what was given", es[0].Args[0], es[0].Args[1])
			c.Check(same(as[0].Args[1], es[0].Res[0]), "store-registers", fname(reg), as[0].Pos, "what is registered is %v, not the schema of the object", as[0].Args[1])
		}
		c.Check(n > 0, "store-registers", fname(reg), c.P.pos(reg.Pos()), "no object can be registered")
	}
	nameTable, groupTable, kindTable := "", "", ""
	tbl := func(t *T, reg *T) string {
		t = deepStrip(t)
		if t.Op == "field" && t.A[0] == deepStrip(reg) {
			return t.S
		}
		return ""
	}
	// lookups
	lookup := func(f *ssa.Function, each func(p *Path, r *T) (ok bool)) {
		any := false
		for _, p := range c.run(f, Cfg{}) {
			facts, ok := p.success()
			if !c.Check(p.Outcome == "return", "registry-lookup", fname(f), p.Pos, "%s panics", fname(f)) {
				continue
			}
			if !ok {
				absent, is := false, false
				for fa, v := range p.facts {
					absent = absent || !v && fa.Op == "mapok"
				}
				for _, s := range wrappedErrs(p.errRet()) {
					is = is || s == "runtime/orm/schema.ErrNotFound"
				}
				c.Check(absent && is, "registry-lookup", fname(f), p.Pos, "%s fails with %v", fname(f), p.errRet())
				continue
			}
			any = true
			r := deepStrip(p.Ret[0])
			known := false
			if r.Op == "maplookup" {
				v, k := decideIn(facts, mk("mapok", "", types.Typ[types.Bool], r.A...))
				known = k && v
			}
			c.Check(known && each(p, r), "registry-lookup", fname(f), p.Pos, "%s returns %v", fname(f), r)
		}
		c.Check(any, "registry-lookup", fname(f), c.P.pos(f.Pos()), "%s never succeeds", fname(f))
	}
	a := c.params(get)
	lookup(get, func(p *Path, r *T) bool {
		nameTable = tbl(r.A[0], a[0])
		return r.A[1].Op == "call" && r.A[1].S == "core/meta.Name" && r.A[1].A[0] == deepStrip(a[1])
	})
	b := c.params(byAPI)
	nested := false
	lookup(byAPI, func(p *Path, r *T) bool {
		ad := deepStrip(b[1])
		fld := func(t *T, n string) bool { return t.Op == "field" && t.S == n && t.A[0] == ad }
		if g := r.A[0]; g.Op == "maplookup" {
			nested = true
			groupTable = tbl(g.A[0], b[0])
			return fld(g.A[1], "Group") && fld(r.A[1], "Kind")
		}
		groupTable = tbl(r.A[0], b[0])
		return contains(r.A[1], ad)
	})
	d := c.params(kinds)
	lookup(kinds, func(p *Path, r *T) bool {
		kindTable = tbl(r.A[0], d[0])
		return r.A[1] == deepStrip(d[1])
	})
	if nameTable == "" || groupTable == "" || kindTable == "" || !nested {
		c.Fail("registry-tables:registry", "-", "the tables of the schema registry were not found")
		return
	}
	// registration
	e := c.params(add)
	reg, o := deepStrip(e[0]), deepStrip(e[1])
	any := false
	isName := func(t *T) bool { return t.Op == "call" && t.S == "core/meta.Name" && t.A[0] == o }
	for _, p := range c.run(add, Cfg{Opaque: schemaOpaque}) {
		var ups []*Event
		for _, ev := range p.Events {
			if ev.Kind == "store" {
				ups = append(ups, ev)
			}
		}
		facts, ok := p.success()
		if p.Outcome != "return" || !ok {
			c.Check(len(ups) == 0, "registry-failure", fname(add), p.Pos, "a refused registration changes the registry")
			for fa, v := range p.facts {
				if v && fa.Op == "mapok" && tbl(fa.A[0], reg) == nameTable {
					is := false
					for _, s := range wrappedErrs(p.errRet()) {
						is = is || s == "runtime/orm/schema.ErrAlreadyExists"
					}
					c.Check(is, "registry-duplicate", fname(add), p.Pos, "a second registration is reported with %v", p.errRet())
				}
			}
			continue
		}
		any = true
		absent := false
		for fa, v := range facts {
			absent = absent || !v && fa.Op == "mapok" && tbl(fa.A[0], reg) == nameTable && isName(fa.A[1])
		}
		c.Check(absent, "registry-duplicate", fname(add), p.Pos, "an object is registered although its name may be taken")
		var n1, n2, n3 bool
		var sch *T
		api := func(t *T, n string) bool {
			return t.Op == "field" && t.S == n && t.A[0].Op == "call" && strings.HasSuffix(t.A[0].S, ").APIDefinition") && t.A[0].A[0] == o
		}
		for _, u := range ups {
			if u.Fn == "mapupdate" && tbl(u.Args[0], reg) == nameTable {
				n1 = isName(deepStrip(u.Deep[1])) && !n1
				sch = u.Args[2]
			}
		}
		grp := map[*T]bool{}
		for _, u := range ups {
			if u.Fn != "mapupdate" {
				continue
			}
			switch m := deepStrip(u.Args[0]); {
			case tbl(m, reg) == groupTable && api(deepStrip(u.Deep[1]), "Group"):
				grp[deepStrip(u.Args[2])] = true
			case tbl(m, reg) == kindTable:
				v := deepStrip(u.Deep[2])
				n3 = api(deepStrip(u.Deep[1]), "Group") && v.Op == "append" && v.A[0].Op == "maplookup" && v.A[0].A[1] == deepStrip(u.Deep[1]) && v.A[1].Op == "slicelit" && len(v.A[1].A) == 1 && api(v.A[1].A[0], "Kind")
			}
		}
		// the kind within its group: an update of the group's map
		for k, v := range p.st.mem {
			if k.Op != "mapent" || !api(deepStrip(k.A[1]), "Kind") || !same(v, sch) {
				continue
			}
			m := k.A[0]
			n2 = n2 || grp[m] || m.Op == "maplookup" && tbl(m.A[0], reg) == groupTable && api(m.A[1], "Group")
		}
		for _, u := range ups {
			// a new group only where there was none
			if u.Fn == "mapupdate" && tbl(u.Args[0], reg) == groupTable {
				none := false
				for fa, v := range p.factsBefore(u.Seq) {
					none = none || !v && fa.Op == "mapok" && tbl(fa.A[0], reg) == groupTable && api(fa.A[1], "Group")
				}
				c.Check(none, "registry-group", fname(add), u.Pos, "the kinds of an API group are forgotten")
			}
		}
		c.Check(n1, "registry-by-name", fname(add), p.Pos, "an object is not registered under its name")
		c.Check(n2, "registry-by-api", fname(add), p.Pos, "an object is not registered under its API definition")
		c.Check(n3, "registry-kinds", fname(add), p.Pos, "an object's kind is not listed in its group")
	}
	c.Check(any, "registry-possible", fname(add), c.P.pos(add.Pos()), "no object can be registered")
}
