package main

// r_crypto.go: the signature scheme of accounts (secp256k1) and the resolver
// which turns packed public keys into keys.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	btc     = "github.com/btcsuite/btcd/btcec."
	bigPre  = "(*math/big.Int)."
	secpPkg = "x/authn/crypto/secp256k1"
)

// cryptoPure: functions of the libraries which are functions of their
// arguments alone.
func cryptoPure(n string) bool {
	switch n {
	case "crypto/sha256.Sum256", "github.com/tendermint/tendermint/crypto.Sha256", "github.com/tendermint/tendermint/crypto/tmhash.Sum",
		"crypto/subtle.ConstantTimeCompare", "bytes.Equal", "bytes.Compare",
		btc + "S256", btc + "ParsePubKey", btc + "PrivKeyFromBytes",
		"(*" + btc + "PublicKey).SerializeCompressed", "(*" + btc + "PrivateKey).PubKey",
		"(*crypto/elliptic.CurveParams).Params", "(*" + btc + "KoblitzCurve).Params":
		return true
	}
	return strings.HasPrefix(n, "(google.golang.org/protobuf/reflect/protoreflect.") && (strings.HasSuffix(n, ").FullName") || strings.HasSuffix(n, ").Descriptor"))
}

func cryptoCfg() Cfg { return Cfg{Pure: cryptoPure} }

func init() {
	register("C31", "Every path of the key types' methods, of the key generators and of the public key resolver is enumerated: what a signature is verified against and laid out as, what keys and addresses are computed from, when a method refuses, and which packed keys resolve to what are compared with the scheme's definition.", c31)
}

func c31(c *Ctx) {
	c.pubKeyVerify()
	c.privKeySign()
	c.privKeyPub()
	c.keyEquals()
	c.keyGen()
	c.keyAddress()
	c.keyResolver()
	c.bigShared()
}

// ------------------------------------------------------------------ numbers

// initialValue is the value a package variable is initialised with, when
// nothing else assigns it.
func (c *Ctx) initialValue(name string) *T {
	g := c.global(name)
	if g == nil {
		return nil
	}
	for _, f := range c.P.allFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						continue
					}
					if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) && f.Name() == "init" && f.Synthetic != "" {
						continue
					}
					return nil
				}
			}
		}
	}
	for _, p := range c.initPaths(g.Pkg.Pkg.Path()) {
		for k, v := range p.st.mem {
			if k.Op == "global" && shortName(k.S) == shortName(g.String()) {
				v = deepStrip(c.P.engine(Cfg{}).deep(p.st, v))
				if v.Op == "ref" {
					v = deepStrip(v.A[0])
				}
				return v
			}
		}
	}
	return nil
}

// initPaths runs the initialisation of the package variables of a package.
func (c *Ctx) initPaths(pkg string) []*Path {
	if c.P.inits == nil {
		c.P.inits = map[string][]*Path{}
	}
	if ps, ok := c.P.inits[pkg]; ok {
		return ps
	}
	var out []*Path
	for _, f := range c.initOf(pkg) {
		if f.Name() != "init" {
			continue
		}
		cfg := cryptoCfg()
		cfg.SkipTables = 256
		cfg.Inline = func(x *ssa.Function) bool {
			return fnPkgPath(x) == fnPkgPath(f) && !strings.HasPrefix(x.Name(), "init")
		}
		out = append(out, c.run(f, cfg)...)
	}
	c.P.inits[pkg] = out
	return out
}

// value replaces package variables by what they are initialised with.
func (c *Ctx) value(t *T) *T {
	t = deepStrip(t)
	if t == nil {
		return nil
	}
	if t.Op == "gval" && strings.Contains(t.S, secpPkg) {
		if v := c.initialValue(t.S); v != nil {
			return v
		}
		return t
	}
	if len(t.A) == 0 {
		return t
	}
	as := make([]*T, len(t.A))
	diff := false
	for i, a := range t.A {
		if a == nil {
			continue
		}
		as[i] = c.value(a)
		diff = diff || as[i] != a
	}
	if !diff {
		return t
	}
	x := mk(t.Op, t.S, t.Typ, as...)
	return x
}

// isOrder: t is the order of the curve.
func isOrder(t *T) bool {
	t = deepStrip(t)
	if t.Op != "field" || t.S != "N" {
		return false
	}
	b := deepStrip(t.A[0])
	for b.Op == "field" && b.S == "CurveParams" || b.Op == "deref" || b.Op == "call" && strings.HasSuffix(b.S, ".Params") {
		b = deepStrip(b.A[0])
	}
	return b.Op == "call" && b.S == btc+"S256"
}

func isBigOp(t *T, op string, n int) bool {
	return t != nil && t.Op == "call" && t.S == bigPre+op && len(t.A) == n
}

func bigConst(t *T, n int64) bool {
	t = deepStrip(t)
	return t.Op == "call" && t.S == "math/big.NewInt" && intEq(t.A[0], n)
}

// isHalfOrder: t is the order of the curve divided by two.
func (c *Ctx) isHalfOrder(t *T) bool {
	t = c.value(t)
	switch {
	case isBigOp(t, "Rsh", 2):
		return isOrder(t.A[0]) && intEq(t.A[1], 1)
	case isBigOp(t, "Div", 2), isBigOp(t, "Quo", 2):
		return isOrder(t.A[0]) && bigConst(t.A[1], 2)
	}
	return false
}

// compared gives the results {-1, 0, 1} which the comparison of two numbers
// can still have on a path.
func (c *Ctx) compared(facts map[*T]bool, a, b func(*T) bool) map[int]bool {
	left := map[int]bool{-1: true, 0: true, 1: true}
	sign := func(t *T) int {
		if isBigOp(t, "Cmp", 2) {
			if a(t.A[0]) && b(t.A[1]) {
				return 1
			}
			if a(t.A[1]) && b(t.A[0]) {
				return -1
			}
		}
		if isBigOp(t, "Sign", 1) && a(t.A[0]) && b(mk("call", "math/big.NewInt", nil, mkInt(0))) {
			return 1
		}
		return 0
	}
	for f, v := range facts {
		if f.Op != "eq" && f.Op != "lt" {
			continue
		}
		for i := 0; i < 2; i++ {
			s := sign(deepStrip(f.A[i]))
			n, k := f.A[1-i].intVal()
			if s == 0 || !k {
				continue
			}
			for r := -1; r <= 1; r++ {
				x := int64(r * s)
				var h bool
				switch {
				case f.Op == "eq":
					h = x == n
				case i == 0:
					h = x < n
				default:
					h = n < x
				}
				if h != v {
					delete(left, r)
				}
			}
		}
	}
	return left
}

// ------------------------------------------------------------------- hashes

// hashOf recognises a digest: the function and what was hashed.
func hashOf(p *Path, t *T) (string, *T) {
	t = unslice(t)
	if t.Op == "call" {
		switch t.S {
		case "crypto/sha256.Sum256", "github.com/tendermint/tendermint/crypto.Sha256", "github.com/tendermint/tendermint/crypto/tmhash.Sum":
			return "sha256", unslice(t.A[0])
		}
	}
	if t.Op != "res" {
		return "", nil
	}
	e := p.eventOf(t)
	if e == nil || !strings.HasSuffix(e.Fn, ").Sum") || len(e.Args) != 1 || !unslice(e.Args[0]).isNil() || e.Recv == nil {
		return "", nil
	}
	h := deepStrip(e.Recv)
	n := p.eventOf(h)
	if n == nil {
		return "", nil
	}
	name := map[string]string{"golang.org/x/crypto/ripemd160.New": "ripemd160", "crypto/sha256.New": "sha256"}[n.Fn]
	if name == "" {
		return "", nil
	}
	var in *T
	for _, x := range p.Events {
		if x.Seq <= n.Seq || x.Seq >= e.Seq || x.Recv == nil || deepStrip(x.Recv) != h {
			continue
		}
		if !strings.HasSuffix(x.Fn, ").Write") || in != nil {
			return "", nil
		}
		in = x.Args[0]
		if len(x.Deep) == 1 {
			in = x.Deep[0]
		}
	}
	if in == nil {
		return "", nil
	}
	return name, unslice(in)
}

// unslice drops a slice expression which selects everything.
func unslice(t *T) *T {
	t = deepStrip(t)
	for {
		switch {
		case t.Op == "slice" && (t.A[1].isNil() || intEq(t.A[1], 0)) && t.A[2].isNil():
			t = deepStrip(t.A[0])
		case t.Op == "ref":
			t = deepStrip(t.A[0])
		default:
			return t
		}
	}
}

func isSha(t, msg *T, p *Path) bool {
	n, x := hashOf(p, t)
	return n == "sha256" && same(x, msg)
}

// ------------------------------------------------------------------- answers

type answer struct {
	val   bool
	facts map[*T]bool
}

// answersOf splits a path by the truth of the condition it returns.
func answersOf(p *Path, t *T) []answer {
	t = deepStrip(t)
	neg := false
	for t.Op == "not" {
		t, neg = deepStrip(t.A[0]), !neg
	}
	if b, k := decideIn(p.facts, t); k {
		return []answer{{b != neg, p.facts}}
	}
	var out []answer
	for _, v := range []bool{true, false} {
		m := map[*T]bool{t: v}
		for a, x := range p.facts {
			m[a] = x
		}
		out = append(out, answer{v != neg, m})
	}
	return out
}

// outcomesOf splits a path by whether it returns without an error.
func outcomesOf(p *Path) []answer {
	if p.Outcome != "return" {
		return nil
	}
	return answersOf(p, mk("eq", "", nil, deepStrip(p.errRet()), mkNil(nil)))
}

func unboxed(t *T) *T { return deepStrip(unconv(deepStrip(t))) }

// lenIs decides whether a length is known to be n, or known not to be.
func lenIs(facts map[*T]bool, x *T, n int64) (bool, bool) {
	l := mk("len", "", types.Typ[types.Int], deepStrip(x))
	if v, k := decideIn(facts, mk("eq", "", nil, l, mkInt(n))); k {
		return v, true
	}
	below, k1 := decideIn(facts, mk("lt", "", nil, l, mkInt(n)))
	above, k2 := decideIn(facts, mk("lt", "", nil, mkInt(n), l))
	if k1 && below || k2 && above {
		return false, true
	}
	return k1 && k2, k1 && k2
}

// ---------------------------------------------------------------- signatures

func isPart(t, of *T, lo, hi int64) bool {
	t = deepStrip(t)
	return t.Op == "slice" && same(t.A[0], of) && (intEq(t.A[1], lo) || lo == 0 && t.A[1].isNil()) && (intEq(t.A[2], hi) || t.A[2].isNil() && hi == 64)
}

// pubKeyVerify: the secp256k1 key accepts a signature iff the curve library
// verified it for the SHA-256 of the message under the key parsed from the
// key's own bytes, and it is a 64 byte low-S signature.
func (c *Ctx) pubKeyVerify() {
	f := c.method(secpPkg, "PubKey", "VerifySignature")
	if f == nil {
		return
	}
	recv, msg, sig := mk("param", f.Params[0].Name(), nil), mk("param", f.Params[1].Name(), nil), mk("param", f.Params[2].Name(), nil)
	own := mkField(recv, "Key", nil)
	isKey := func(t *T) bool {
		t = deepStrip(t)
		return t.Op == "call" && strings.HasPrefix(t.S, btc+"ParsePubKey#0") && same(unslice(t.A[0]), own) && isCurve(t.A[1])
	}
	isErr := func(t *T) bool {
		t = deepStrip(t)
		return t.Op == "call" && strings.HasPrefix(t.S, btc+"ParsePubKey#1") && same(unslice(t.A[0]), own) && isCurve(t.A[1])
	}
	num := func(lo, hi int64) func(*T) bool {
		return func(t *T) bool {
			t = deepStrip(t)
			return isBigOp(t, "SetBytes", 1) && isPart(t.A[0], sig, lo, hi)
		}
	}
	ps := c.run(f, cryptoCfg())
	okAny := false
	for _, p := range ps {
		if p.Outcome != "return" {
			c.Check(false, "verify-no-panic", fname(f), p.Pos, "verifying a signature can panic at %s", p.Pos)
			continue
		}
		var ver *Event
		for _, e := range p.Events {
			if strings.Contains(e.Fn, "btcec.Signature).Verify") && len(e.Res) == 1 {
				ver = e
			}
		}
		for _, a := range answersOf(p, p.Ret[0]) {
			facts := a.facts
			parsed, parseKnown := false, false
			for x, v := range facts {
				if x.Op == "eq" && x.A[1].isNil() && isErr(x.A[0]) {
					parsed, parseKnown = v, true
				}
			}
			l, lk := lenIs(facts, sig, 64)
			half := c.compared(facts, num(32, 64), c.isHalfOrder)
			high, low := !half[-1] && !half[0], !half[1]
			var verdict, known bool
			if ver != nil {
				verdict, known = facts[deepStrip(ver.Res[0])]
			}
			if !a.val {
				c.Check(lk && !l || parseKnown && !parsed || high || known && !verdict, "verify-refusal", fname(f), p.Pos, "a signature is refused although it is 64 bytes long, low-S, the key is well formed and the library did not refuse it")
				continue
			}
			okAny = true
			// the answer is the library's verdict
			if !c.Check(known && verdict, "verify-by-library", fname(f), p.Pos, "a signature is accepted without the curve library's verification") {
				continue
			}
			args := ver.Args
			if len(ver.Deep) == len(args) {
				args = ver.Deep
			}
			s := deepStrip(args[0])
			if s.Op == "ref" {
				s = deepStrip(s.A[0])
			}
			r, sv := field(s, "R"), field(s, "S")
			c.Check(r != nil && sv != nil && num(0, 32)(r) && num(32, 64)(sv), "verify-this-signature", fname(f), ver.Pos, "the numbers verified are not the two halves of the signature")
			h := args[len(args)-2]
			c.Check(isSha(h, msg, p), "verify-this-message", fname(f), ver.Pos, "the digest verified is %v, not the SHA-256 of the message", h)
			c.Check(isKey(args[len(args)-1]) && parseKnown && parsed, "verify-this-key", fname(f), ver.Pos, "the key used is not the one successfully parsed from the key's bytes")
			c.Check(lk && l, "verify-signature-length", fname(f), p.Pos, "a signature that is not 64 bytes long can be accepted")
			c.Check(low, "verify-low-s", fname(f), p.Pos, "a malleable signature (high S) can be accepted")
		}
	}
	c.Check(okAny, "verify-reachable", fname(f), c.P.pos(f.Pos()), "no signature is ever accepted")
}

func isCurve(t *T) bool {
	t = deepStrip(t)
	return t.Op == "call" && t.S == btc+"S256"
}

func decTrue(facts map[*T]bool, t *T) bool {
	v, k := facts[deepStrip(t)]
	return k && v
}

type slot struct {
	end int64
	val *T
}

// padded reads a byte string of fixed size which is zero but for numbers,
// each written big-endian so that it ends at a given place.
func padded(t *T) (size int64, parts []slot, ok bool) {
	t = deepStrip(t)
	if t.Op == "ref" {
		t = deepStrip(t.A[0])
	}
	switch t.Op {
	case "slice":
		if !(t.A[1].isNil() || intEq(t.A[1], 0)) {
			return 0, nil, false
		}
		size, parts, ok = padded(t.A[0])
		if !t.A[2].isNil() && !intEq(t.A[2], size) {
			return 0, nil, false
		}
		return size, parts, ok
	case "slicelit":
		for _, a := range t.A {
			if !intEq(a, 0) {
				return 0, nil, false
			}
		}
		return int64(len(t.A)), nil, true
	case "mslice":
		n, k := t.A[0].intVal()
		return n, nil, k && len(t.A) == 1
	case "fill":
		size, parts, ok = padded(t.A[0])
		if !ok {
			return 0, nil, false
		}
		v := deepStrip(t.A[2])
		n := mk("len", "", types.Typ[types.Int], v)
		if isBigOp(v, "FillBytes", 2) {
			n = v.A[1]
			v = mk("call", bigPre+"Bytes", nil, v.A[0])
		} else if l, k := (&Engine{}).mkLen(newState(), v).intVal(); k {
			n = mkInt(l)
		}
		for e := int64(1); e <= size; e++ {
			if sameSum(sumOf(t.A[1], n), mkInt(e)) {
				return size, append(parts, slot{e, v}), true
			}
		}
	case "append":
		// as many zeros as there is room left of the number
		if z := deepStrip(t.A[0]); z.Op == "mslice" && len(z.A) == 1 {
			if _, k := z.A[0].intVal(); !k {
				v := deepStrip(t.A[1])
				for e := int64(1); e <= 64; e++ {
					if sameSum(sumOf(z.A[0], mk("len", "", types.Typ[types.Int], v)), mkInt(e)) {
						return e, []slot{{e, v}}, true
					}
				}
				return 0, nil, false
			}
		}
		size, parts, ok = padded(t.A[0])
		s2, p2, ok2 := padded(t.A[1])
		for _, x := range p2 {
			parts = append(parts, slot{x.end + size, x.val})
		}
		return size + s2, parts, ok && ok2
	}
	return 0, nil, false
}

// privKeySign: signing returns R and S of the library's signature over the
// SHA-256 of the message under the key's own bytes, 32 bytes each.
func (c *Ctx) privKeySign() {
	f := c.method(secpPkg, "PrivKey", "Sign")
	if f == nil {
		return
	}
	own, msg := mkField(mk("param", f.Params[0].Name(), nil), "Key", nil), mk("param", f.Params[1].Name(), nil)
	n := 0
	for _, p := range c.run(f, cryptoCfg()) {
		if p.Outcome != "return" {
			c.Check(false, "sign-no-panic", fname(f), p.Pos, "signing can panic at %s", p.Pos)
			continue
		}
		var sg *Event
		for _, e := range p.Events {
			if strings.Contains(e.Fn, "btcec.PrivateKey).Sign") && len(e.Res) == 2 {
				sg = e
			}
		}
		done := false
		for _, a := range outcomesOf(p) {
			if !a.val {
				c.Check(sg != nil && sg.failedIn(a.facts) && wrapsValue(p.errRet(), sg.Res[1]), "sign-error", fname(f), p.Pos, "signing fails with %v although the library did not fail", p.errRet())
				continue
			}
			done = c.Check(sg != nil && sg.okIn(a.facts), "sign-by-library", fname(f), p.Pos, "a signature is returned although the library did not make one")
		}
		if !done {
			continue
		}
		n++
		k := deepStrip(sg.Args[0])
		c.Check(k.Op == "call" && k.S == btc+"PrivKeyFromBytes#0" && isCurve(k.A[0]) && same(unslice(k.A[1]), own), "sign-this-key", fname(f), sg.Pos, "the key used is %v", k)
		c.Check(isSha(sg.Args[1], msg, p), "sign-this-message", fname(f), sg.Pos, "the digest signed is %v", sg.Args[1])
		size, parts, ok := padded(p.RetDeep[0])
		good := ok && size == 64 && len(parts) == 2
		for _, x := range parts {
			want := map[int64]string{32: "R", 64: "S"}[x.end]
			good = good && want != "" && isBigOp(x.val, "Bytes", 1) && same(x.val.A[0], mkField(sg.Res[0], want, nil))
		}
		good = good && parts[0].end != parts[1].end
		c.Check(good, "sign-layout", fname(f), p.Pos, "the signature returned is not R || S of 32 bytes each, padded on the left")
	}
	c.Check(n > 0, "sign-reachable", fname(f), c.P.pos(f.Pos()), "no message can be signed")
}

func (c *Ctx) privKeyPub() {
	f := c.method(secpPkg, "PrivKey", "PubKey")
	if f == nil {
		return
	}
	own := mkField(mk("param", f.Params[0].Name(), nil), "Key", nil)
	for _, p := range c.run(f, cryptoCfg()) {
		ok := p.Outcome == "return" && strings.HasSuffix(objType(deepStrip(p.RetDeep[0])), "secp256k1.PubKey")
		if ok {
			k := deepStrip(field(deepStrip(p.RetDeep[0]), "Key"))
			ok = k != nil && k.Op == "call" && strings.HasSuffix(k.S, "PublicKey).SerializeCompressed")
			if ok {
				x := deepStrip(k.A[0])
				from := func(x *T, i string) bool {
					return x.Op == "call" && x.S == btc+"PrivKeyFromBytes#"+i && isCurve(x.A[0]) && same(unslice(x.A[1]), own)
				}
				ok = from(x, "1") || x.Op == "call" && strings.HasSuffix(x.S, "PrivateKey).PubKey") && from(deepStrip(x.A[0]), "0")
			}
		}
		c.Check(ok, "public-key-of-private", fname(f), p.Pos, "the public key of a private key is not the compressed point of its own scalar")
	}
}

// keyEquals: two keys are equal iff they have one type and the same bytes.
func (c *Ctx) keyEquals() {
	for _, typ := range []string{"PubKey", "PrivKey"} {
		f := c.method(secpPkg, typ, "Equals")
		if f == nil {
			continue
		}
		own, other := mkField(mk("param", f.Params[0].Name(), nil), "Key", nil), mk("param", f.Params[1].Name(), nil)
		theirs := func(t *T) bool {
			t = unslice(t)
			for t.Op == "conv" {
				t = unslice(t.A[0])
			}
			if t.Op == "call" && strings.HasSuffix(t.S, ").Bytes") {
				return same(t.A[0], other)
			}
			return t.Op == "field" && t.S == "Key" && (same(t.A[0], other))
		}
		mine := func(t *T) bool {
			t = unslice(t)
			for t.Op == "conv" {
				t = unslice(t.A[0])
			}
			return same(t, own)
		}
		// whatever other kinds of keys there may be
		cfg := cryptoCfg()
		cfg.NoDevirt = true
		cfg.Pure = func(n string) bool {
			return cryptoPure(n) || strings.HasPrefix(n, "(x/authn/crypto.") && (strings.HasSuffix(n, ").Type") || strings.HasSuffix(n, ").Bytes"))
		}
		for _, p := range c.run(f, cfg) {
			if p.Outcome != "return" {
				c.Check(false, "equals-no-panic", fname(f), p.Pos, "comparing keys can panic at %s", p.Pos)
				continue
			}
			for _, a := range answersOf(p, p.Ret[0]) {
				var bytesEq, bytesK, typeEq, typeK bool
				for x, v := range a.facts {
					pair := func(l, r *T) bool { return mine(l) && theirs(r) || mine(r) && theirs(l) }
					switch {
					case x.Op == "call" && x.S == "bytes.Equal" && pair(x.A[0], x.A[1]):
						bytesEq, bytesK = v, true
					case x.Op == "eq" && x.A[0].Op == "call" && x.A[0].S == "crypto/subtle.ConstantTimeCompare" && pair(x.A[0].A[0], x.A[0].A[1]) && (intEq(x.A[1], 1) || intEq(x.A[1], 0)):
						bytesEq, bytesK = v == intEq(x.A[1], 1), true
					case x.Op == "eq" && x.A[0].Op == "call" && x.A[0].S == "bytes.Compare" && pair(x.A[0].A[0], x.A[0].A[1]) && intEq(x.A[1], 0):
						bytesEq, bytesK = v, true
					case x.Op == "eq" && pair(x.A[0], x.A[1]):
						bytesEq, bytesK = v, true
					case x.Op == "eq" && typeNameOf(x.A[0], other) || x.Op == "eq" && typeNameOf(x.A[1], other):
						y := x.A[1]
						if typeNameOf(y, other) {
							y = x.A[0]
						}
						s, _ := deepStrip(y).strVal()
						typeEq, typeK = v && s == "secp256k1", s == "secp256k1"
					case x.Op == "isa":
						if contains(x, other) {
							typeEq, typeK = v, true
						}
					}
				}
				if a.val {
					c.Check(bytesK && bytesEq && typeEq, "keys-equal", fname(f), p.Pos, "two keys can be equal although their types or bytes differ")
				} else {
					c.Check(bytesK && !bytesEq || typeK && !typeEq, "keys-differ", fname(f), p.Pos, "two keys of the same type and bytes can be different")
				}
			}
		}
	}
	for _, typ := range []string{"PubKey", "PrivKey"} {
		if f := c.method(secpPkg, typ, "Type"); f != nil {
			for _, p := range c.run(f, cryptoCfg()) {
				s, ok := "", false
				if p.Outcome == "return" {
					s, ok = deepStrip(p.Ret[0]).strVal()
				}
				c.Check(ok && s == "secp256k1", "key-type", fname(f), p.Pos, "the type of the key is %q", s)
			}
		}
		if f := c.method(secpPkg, typ, "Bytes"); f != nil {
			for _, p := range c.run(f, cryptoCfg()) {
				c.Check(p.Outcome == "return" && same(unslice(p.Ret[0]), mkField(mk("param", f.Params[0].Name(), nil), "Key", nil)), "key-bytes", fname(f), p.Pos, "the bytes of the key are not its own")
			}
		}
	}
}

func typeNameOf(t, other *T) bool {
	t = deepStrip(t)
	return t.Op == "call" && strings.HasSuffix(t.S, ").Type") && (same(t.A[0], other))
}

// ------------------------------------------------------------- making of keys

func (c *Ctx) keyGen() {
	if f := c.fn(secpPkg, "GenPrivKey"); f != nil {
		n := 0
		for _, p := range c.run(f, cryptoCfg()) {
			var reads []*Event
			for _, e := range p.Events {
				if e.Fn == "io.ReadFull" && len(e.Res) == 2 {
					reads = append(reads, e)
				}
			}
			if p.Outcome == "panic" {
				c.Check(len(reads) > 0 && reads[len(reads)-1].failedIn(p.facts), "generate-panic", fname(f), p.Pos, "making a key panics although randomness was read")
				continue
			}
			if p.Outcome != "return" {
				continue
			}
			n++
			k := deepStrip(field(deepStrip(p.RetDeep[0]), "Key"))
			var from *Event
			for _, e := range reads {
				if o := evOut(e, 1); o != nil && k != nil && unslice(k) == o {
					from = e
				}
			}
			if !c.Check(from != nil, "generate-random", fname(f), p.Pos, "the key made is %v, not bytes read from the random source", k) {
				continue
			}
			c.Check(from.okIn(p.facts) && c.isRandom(p, from.Args[0]), "generate-random", fname(f), from.Pos, "the key made is not from a successful read of the system's randomness")
			size := int64(-1)
			if len(from.Deep) == 2 {
				size, _ = (&Engine{}).mkLen(newState(), unslice(from.Deep[1])).intVal()
			}
			c.Check(size == 32, "generate-size", fname(f), from.Pos, "the key made is not 32 bytes long")
			is := func(t *T) bool {
				t = deepStrip(t)
				return isBigOp(t, "SetBytes", 1) && unslice(t.A[0]) == unslice(k)
			}
			zero := c.compared(p.facts, is, func(t *T) bool { return bigConst(t, 0) })
			order := c.compared(p.facts, is, isOrder)
			c.Check(!zero[0] && !zero[-1] && !order[0] && !order[1], "generate-in-range", fname(f), p.Pos, "a key outside of [1, N-1] can be made")
		}
		c.Check(n > 0, "generate-reachable", fname(f), c.P.pos(f.Pos()), "no key can be made")
	}
	if f := c.fn(secpPkg, "GenPrivKeyFromSecret"); f != nil {
		secret := mk("param", f.Params[0].Name(), nil)
		for _, p := range c.run(f, cryptoCfg()) {
			if !c.Check(p.Outcome == "return", "from-secret", fname(f), p.Pos, "making a key from a secret can panic") {
				continue
			}
			size, parts, ok := padded(field(deepStrip(p.RetDeep[0]), "Key"))
			if !c.Check(ok && size == 32 && len(parts) == 1 && parts[0].end == 32 && isBigOp(parts[0].val, "Bytes", 1), "from-secret-layout", fname(f), p.Pos, "the key made from a secret is not a number of 32 bytes, padded on the left") {
				continue
			}
			v := c.value(parts[0].val.A[0])
			ok = false
			if isBigOp(v, "Add", 2) {
				x, y := deepStrip(v.A[0]), deepStrip(v.A[1])
				if bigConst(x, 1) {
					x, y = y, x
				}
				if bigConst(y, 1) && isBigOp(x, "Mod", 2) {
					h, m := deepStrip(x.A[0]), deepStrip(x.A[1])
					ok = isBigOp(h, "SetBytes", 1) && isSha(h.A[0], secret, p) && isBigOp(m, "Sub", 2) && isOrder(m.A[0]) && bigConst(m.A[1], 1)
				}
			}
			c.Check(ok, "from-secret-number", fname(f), p.Pos, "the key made from a secret is %v, not sha256(secret) mod (N-1) + 1", v)
		}
	}
}

// isRandom: the reader is the operating system's source of randomness.
func (c *Ctx) isRandom(p *Path, t *T) bool {
	t = deepStrip(t)
	if e := p.eventOf(t); e != nil {
		return e.Fn == "github.com/tendermint/tendermint/crypto.CReader"
	}
	return t.Op == "call" && t.S == "github.com/tendermint/tendermint/crypto.CReader" || t.Op == "gval" && t.S == "crypto/rand.Reader"
}

func (c *Ctx) keyAddress() {
	if f := c.method(secpPkg, "PubKey", "Address"); f != nil {
		own := mkField(mk("param", f.Params[0].Name(), nil), "Key", nil)
		n := 0
		for _, p := range c.run(f, cryptoCfg()) {
			l, k := lenIs(p.facts, own, 33)
			if p.Outcome == "panic" {
				// (a hash never fails)
				w := false
				for _, e := range p.Events {
					w = w || strings.HasSuffix(e.Fn, ").Write") && e.failedIn(p.facts)
				}
				c.Check(w || k && !l, "address-panic", fname(f), p.Pos, "the address of a key of 33 bytes can panic")
				continue
			}
			n++
			c.Check(k && l, "address-length", fname(f), p.Pos, "a key which is not 33 bytes long has an address")
			h, x := hashOf(p, p.Ret[0])
			h2, y := "", (*T)(nil)
			if x != nil {
				h2, y = hashOf(p, x)
			}
			c.Check(h == "ripemd160" && h2 == "sha256" && same(y, own), "address", fname(f), p.Pos, "the address is %v, not the RIPEMD-160 of the SHA-256 of the key", p.Ret[0])
		}
		c.Check(n > 0, "address-reachable", fname(f), c.P.pos(f.Pos()), "no key has an address")
	}
	if f := c.method(secpPkg, "PubKey", "Validate"); f != nil {
		own := mkField(mk("param", f.Params[0].Name(), nil), "Key", nil)
		for _, p := range c.run(f, cryptoCfg()) {
			c.Check(p.Outcome == "return", "validate", fname(f), p.Pos, "validating a key can panic")
			for _, a := range outcomesOf(p) {
				l, k := lenIs(a.facts, own, 33)
				c.Check(k && l == a.val, "validate", fname(f), p.Pos, "a public key is valid although it is not 33 bytes long, or the reverse")
			}
		}
	}
}

// ------------------------------------------------------------------- resolver

const cosmosKey = "/cosmos.crypto.secp256k1.PubKey"

func (c *Ctx) keyResolver() {
	const pkg = "x/authn/crypto"
	if f := c.fn(pkg, "NewDefaultPubKeyResolver"); f != nil {
		keys := mk("param", f.Params[0].Name(), nil)
		for _, p := range c.run(f, cryptoCfg()) {
			if !c.Check(p.Outcome == "return", "known-keys", fname(f), p.Pos, "making the resolver can panic") {
				continue
			}
			m := deepStrip(field(deepStrip(p.RetDeep[0]), "knownPubKeys"))
			idx, done := elems(p.facts, keys)
			c.Check(done, "known-keys", fname(f), p.Pos, "the resolver can be made before every supported key was added")
			want := map[*T]bool{}
			for _, i := range idx {
				want[mkElem(keys, i, nil)] = true
			}
			cosmos := false
			for k := range p.st.mem {
				if k.Op != "mapent" || k.A[0] != m {
					continue
				}
				s := strParts(k.A[1])
				switch {
				case len(s) == 1 && s[0].t == nil && s[0].lit == cosmosKey:
					cosmos = true
				case len(s) == 2 && s[0].t == nil && s[0].lit == "/" && s[1].t != nil && nameOfMessage(s[1].t) != nil && want[nameOfMessage(s[1].t)]:
					delete(want, nameOfMessage(s[1].t))
				default:
					c.Check(false, "known-keys", fname(f), p.Pos, "the resolver knows %v", k.A[1])
				}
			}
			c.Check(len(want) == 0, "known-keys", fname(f), p.Pos, "a supported key is not known to the resolver")
			c.Check(cosmos, "known-cosmos-key", fname(f), p.Pos, "the cosmos name of the key is not known to the resolver")
		}
	}
	if f := c.method(pkg, "PubKeyResolver", "New"); f != nil {
		recv, pk := mk("param", f.Params[0].Name(), nil), mk("param", f.Params[1].Name(), nil)
		n := 0
		for _, p := range c.run(f, cryptoCfg()) {
			known, kk := decideIn(p.facts, mk("mapok", "", nil, mkField(recv, "knownPubKeys", nil), mkField(pk, "TypeUrl", nil)))
			var um *Event
			for _, e := range p.Events {
				if strings.HasSuffix(e.Fn, "anypb.UnmarshalNew") && len(e.Res) == 2 {
					um = e
				}
			}
			var x *T
			isKey, isK := false, false
			if um != nil {
				x = deepStrip(um.Res[0])
				for a, v := range p.facts {
					if a.Op == "isa" && deepStrip(a.A[0]) == x && strings.HasSuffix(a.S, "crypto.PubKey") {
						isKey, isK = v, true
					}
				}
			}
			if p.Outcome != "return" {
				c.Check(um != nil && um.okIn(p.facts) && isK && !isKey, "resolve-panic", fname(f), p.Pos, "resolving a key can panic at %s", p.Pos)
				continue
			}
			for _, a := range outcomesOf(p) {
				ok := func(e *Event) bool { return e.okIn(a.facts) }
				failed := func(e *Event) bool { return e.failedIn(a.facts) }
				if !a.val {
					bad := kk && !known || um != nil && failed(um) || isK && !isKey
					for _, e := range p.Events {
						if strings.HasSuffix(e.Fn, ").Validate") && failed(e) {
							bad = true
						}
					}
					c.Check(bad, "resolve-refusal", fname(f), p.Pos, "a packed key is refused although its type is known, it decodes and is valid")
					continue
				}
				n++
				c.Check(kk && known, "resolve-known", fname(f), p.Pos, "a packed key of a type which is not known is accepted")
				if !c.Check(um != nil && ok(um) && same(um.Args[0], pk) && unboxed(p.Ret[0]) == x, "resolve-decodes", fname(f), p.Pos, "the key returned is not the one successfully decoded from the packed key") {
					continue
				}
				ao := um.Args[1]
				if len(um.Deep) == 2 {
					ao = um.Deep[1]
				}
				r := field(deepStrip(ao), "Resolver")
				c.Check(r != nil && (strings.HasSuffix(tname(r.Typ), "pubKeyAliasResolver") || strings.HasSuffix(objType(deepStrip(r)), "pubKeyAliasResolver")), "resolve-alias", fname(f), um.Pos, "packed keys are decoded without the resolver of the cosmos name")
				valid, can, canK := false, false, false
				for a, v := range a.facts {
					if a.Op == "isa" && strings.Contains(a.S, "Validate") && deepStrip(a.A[0]) == x {
						can, canK = v, true
					}
				}
				for _, e := range p.Events {
					if strings.HasSuffix(e.Fn, ").Validate") && ok(e) && (e.Recv != nil && unboxed(e.Recv) == x || len(e.Args) > 0 && unboxed(e.Args[0]) == x) {
						valid = true
					}
				}
				c.Check(valid || canK && !can, "resolve-validates", fname(f), p.Pos, "a key is accepted without its validation")
			}
		}
		c.Check(n > 0, "resolve-reachable", fname(f), c.P.pos(f.Pos()), "no packed key can be resolved")
	}
	if f := c.method(pkg, "pubKeyAliasResolver", "FindMessageByURL"); f != nil {
		url := mk("param", f.Params[1].Name(), nil)
		for _, p := range c.run(f, cryptoCfg()) {
			if !c.Check(p.Outcome == "return", "alias", fname(f), p.Pos, "resolving the name of a key can panic") {
				continue
			}
			e := p.eventOf(deepStrip(p.Ret[0]))
			ok := e != nil && strings.HasSuffix(e.Fn, ".FindMessageByURL") && deepStrip(p.Ret[1]) == deepStrip(e.Res[1])
			if !c.Check(ok, "alias", fname(f), p.Pos, "the type of a key is not looked up in the registry") {
				continue
			}
			is, k := decideIn(p.facts, mk("eq", "", nil, url, mkStr(cosmosKey)))
			arg := deepStrip(e.Args[len(e.Args)-1])
			s, _ := arg.strVal()
			switch {
			case k && is:
				c.Check(s == "/tmos.x.authn.crypto.v1alpha1.PubKey", "alias-cosmos", fname(f), p.Pos, "the cosmos name of the key means %v", arg)
			default:
				c.Check(k && arg == url, "alias-others", fname(f), p.Pos, "the name %v is looked up for a key", arg)
			}
		}
	}
	if f := c.method(pkg, "PubKeyResolver", "Address"); f != nil {
		cfg := cryptoCfg()
		cfg.Opaque = func(n string) bool { return strings.HasSuffix(n, "PubKeyResolver).New") }
		recv, prefix, pk := mk("param", f.Params[0].Name(), nil), mk("param", f.Params[1].Name(), nil), mk("param", f.Params[2].Name(), nil)
		for _, p := range c.run(f, cfg) {
			var nw *Event
			for _, e := range p.Events {
				if strings.HasSuffix(e.Fn, "PubKeyResolver).New") && same(e.Args[0], recv) && same(e.Args[1], pk) {
					nw = e
				}
			}
			if p.Outcome != "return" || nw == nil {
				c.Check(false, "key-address", fname(f), p.Pos, "the address of a packed key is not that of the key it resolves to")
				continue
			}
			if nw.failedIn(p.facts) {
				c.Check(wrapsValue(p.errRet(), nw.Res[1]), "key-address", fname(f), p.Pos, "a packed key which does not resolve has an address")
				continue
			}
			a := deepStrip(p.Ret[0])
			e := deepStrip(p.errRet())
			enc := a
			if a.Op != "call" && e.Op == "call" {
				enc = e
			}
			// an address which cannot be encoded is an error
			for x, v := range p.facts {
				if x.Op == "eq" && x.A[1].isNil() && x.A[0].Op == "call" && strings.Contains(x.A[0].S, "bech32.ConvertAndEncode#1") && !v {
					enc = x.A[0]
					for _, o := range outcomesOf(p) {
						c.Check(!o.val, "key-address", fname(f), p.Pos, "a key whose address cannot be encoded has an address")
					}
				}
			}
			ok := enc.Op == "call" && strings.Contains(enc.S, "bech32.ConvertAndEncode#") && same(enc.A[0], prefix)
			if ok {
				x := deepStrip(enc.A[1])
				ok = x.Op == "call" && strings.HasSuffix(x.S, ").Address") && unboxed(x.A[0]) == deepStrip(nw.Res[0])
			}
			c.Check(ok, "key-address", fname(f), p.Pos, "the address of a packed key is %v, not that of the key it resolves to, in bech32 with the given prefix", a)
		}
	}
}

// nameOfMessage: t is the full name of the message; the message.
func nameOfMessage(t *T) *T {
	t = deepStrip(t)
	for t.Op == "conv" {
		t = deepStrip(t.A[0])
	}
	if t.Op != "call" || !strings.HasSuffix(t.S, ").FullName") {
		return nil
	}
	t = deepStrip(t.A[0])
	if t.Op != "call" || !strings.HasSuffix(t.S, ").Descriptor") {
		return nil
	}
	t = deepStrip(t.A[0])
	if t.Op != "call" || !strings.HasSuffix(t.S, ").ProtoReflect") {
		return nil
	}
	return deepStrip(t.A[0])
}

// ---------------------------------------------------------------- shared state

// bigShared: numbers that are shared (package variables, the curve's order)
// are never changed in place.
func (c *Ctx) bigShared() {
	for _, f := range c.P.allFuncs {
		if fnPkgPath(f) != modPath+"/"+secpPkg || f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || !strings.HasPrefix(g.String(), bigPre) || len(call.Common().Args) == 0 {
					continue
				}
				sig := g.Signature
				if sig.Results().Len() == 0 || !types.Identical(sig.Results().At(0).Type(), sig.Recv().Type()) {
					continue
				}
				c.Check(freshNumber(call.Common().Args[0], map[ssa.Value]bool{}), "shared-number", fname(f), c.P.pos(in.Pos()), "%s changes a number which is not its own", g.Name())
			}
		}
	}
}

// freshNumber: the number was made in this function.
func freshNumber(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !freshNumber(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil {
			return false
		}
		if g.String() == "math/big.NewInt" {
			return true
		}
		// the setters return their receiver
		return strings.HasPrefix(g.String(), bigPre) && len(v.Call.Args) > 0 && freshNumber(v.Call.Args[0], seen)
	}
	return false
}
