package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnVerify  = "(x/authn/crypto.PubKey).VerifySignature"
	fnMarshal = "google.golang.org/protobuf/proto.Marshal"
)

func init() {
	register("C07", "Every path on which the transaction decoder succeeds and every path on which the signature admission handler accepts is enumerated: each signer the transaction presents must have been verified (key, signature and sequence of the same signer entry) over the sign document made of the received body bytes, the received auth info bytes, the stored chain id and the account number stored for that signer's address; decoding must derive the users, the addresses, the signers and the state transitions from exactly those bytes.", c07)
	register("C08", "Every accepting path of the signature admission handler must compare the stored sequence of each signer's account with the signed one; every successful path of the sequence step must store the sequence plus one for each user of the transaction; every other write of an account in the repository keeps the sequence, and accounts start at zero.", c08)
	register("C09", "All paths of the transaction decoder are enumerated; every successful one must have established each of the well-formedness conditions and every result component must come from the bytes received.", c09)
	register("C12", "All accepting paths of the transaction admission handlers are enumerated: among the handlers every one of the limits (memo length, timeout height, number of signatures, existing signer accounts) must be enforced on all accepting paths of one handler, against the stored parameters and block.", c12)
	register("C32", "All successful paths of the account creation handlers are enumerated: the objects written, their fields and the counter; all other writes of the counter and of accounts in the repository are listed.", c32)
}

// addInt is x plus n.
func addInt(x *T, n int64) *T {
	if m, ok := x.intVal(); ok {
		return mkInt(m + n)
	}
	if x.Op == "bin" && x.S == "+" {
		for k := 0; k < 2; k++ {
			if m, ok := x.A[k].intVal(); ok {
				return addInt(x.A[1-k], n+m)
			}
		}
	}
	if n == 0 {
		return x
	}
	return mk("bin", "+", x.Typ, x, mkInt(n))
}

// number is the term without integer conversions.
func number(t *T) *T {
	t = deepStrip(t)
	for t.Op == "conv" {
		t = deepStrip(t.A[0])
	}
	return t
}

// evOut is the content that an opaque call left in its i-th argument.
func evOut(e *Event, i int) *T {
	short := e.Fn
	if j := strings.LastIndex(short, "."); j >= 0 {
		short = short[j+1:]
	}
	return mk("out", short+"#"+itoa(e.Seq)+".out"+itoa(i), nil)
}

// fetched returns the client reads on the path into a value of the named type
// that succeeded.
func fetched(p *Path, facts map[*T]bool, typ string) []*Event {
	var out []*Event
	for _, e := range p.calls(fnClientGet) {
		_, into := boxed(e.Args[1])
		if into != nil && into.Typ != nil && strings.HasSuffix(tname(into.Typ), typ) && e.okIn(facts) {
			out = append(out, e)
		}
	}
	return out
}

// readInto: the type a client read goes into.
func readInto(e *Event) string {
	_, into := boxed(e.Args[1])
	if into == nil || into.Typ == nil {
		return ""
	}
	return tname(into.Typ)
}

func isSingleton(id *T) bool {
	return findTerm(deepStrip(id), func(t *T) bool {
		return (t.Op == "gval" || t.Op == "global") && strings.HasSuffix(t.S, "meta.SingletonID")
	}) != nil
}

// evalOn evaluates a method of a value and returns its single result.
func (c *Ctx) evalOn(st *state, t types.Type, recv *T, name string) *T {
	f := c.methodFor(t, name)
	if f == nil {
		c.Fail("anchor:"+tname(t)+"."+name, "-", "%s has no method %s", tname(t), name)
		return nil
	}
	s := newState()
	if st != nil {
		s = st.clone()
	}
	s.events, s.flist = nil, nil
	var r *T
	for _, p := range c.runFrom(s, f, []*T{recv}, Cfg{}) {
		if p.Outcome != "return" || len(p.Ret) != 1 || r != nil && r != p.RetDeep[0] {
			return nil
		}
		r = p.RetDeep[0]
	}
	return r
}

// signers is the expression by which a handler reads the transaction's
// signers, given the transaction it receives.
func (c *Ctx) wrapper() types.Type {
	n := c.P.named("x/authn/tx", "Wrapper")
	if n == nil {
		c.Fail("anchor:tx.Wrapper", "-", "the transaction type was not found")
		return nil
	}
	return types.NewPointer(n)
}

// txArg is the transaction argument of an admission handler.
func txArg(ps []*Path, req *T) *T { return req }

// acceptedBy reports whether one of the handlers enforces ok on each of its
// successful paths; why names the failure of the last one.
func (c *Ctx) acceptedBy(hs []*Handler, cfg Cfg, ok func(h *Handler, p *Path, facts map[*T]bool, req *T) (bool, string)) (*Handler, string) {
	why := "no handler is registered"
	best := -1
	for _, h := range hs {
		ps, req, _ := c.runHandler(h, cfg)
		n, good := 0, 0
		w := ""
		for _, p := range ps {
			if p.Outcome == "panic" {
				continue
			}
			facts, succ := p.success()
			if !succ {
				continue
			}
			n++
			g, x := ok(h, p, facts, req)
			if g {
				good++
			} else {
				w = x + " (" + fname(h.Fn) + " accepts at " + p.Pos + ")"
			}
		}
		if n > 0 && n == good {
			return h, ""
		}
		if good > best && w != "" {
			why, best = w, good
		}
	}
	return nil, why
}

// verified: on the path, signer s of the transaction was verified.
func (c *Ctx) verified(p *Path, facts map[*T]bool, s, raw *T) (bool, string) {
	why := "the signature of " + s.String() + " is not verified"
	pk, sig := deepStrip(mkField(s, "PubKey", nil)), deepStrip(mkField(s, "Signature", nil))
	for a, v := range facts {
		if !v || a.Op != "call" || a.S != fnVerify || len(a.A) != 3 {
			continue
		}
		if deepStrip(a.A[0]) != pk {
			continue
		}
		if deepStrip(a.A[2]) != sig {
			why = "the signature checked with the key of " + s.String() + " is " + a.A[2].String()
			continue
		}
		var doc *Event
		for _, e := range p.Events {
			if strings.HasPrefix(e.Fn, fnMarshal) || strings.HasPrefix(e.Fn, "(google.golang.org/protobuf/proto.MarshalOptions).Marshal") {
				if len(e.Res) == 2 && deepStrip(e.Res[0]) == deepStrip(a.A[1]) {
					doc = e
				}
			}
		}
		if doc == nil {
			why = "the bytes verified are " + a.A[1].String() + ", not a sign document"
			continue
		}
		if !doc.okIn(facts) {
			why = "the sign document may have failed to encode"
			continue
		}
		d := doc.Deep[len(doc.Deep)-1]
		if !strings.HasSuffix(objType(d), "SignDoc") {
			why = "the bytes verified are not those of a sign document"
			continue
		}
		if !same(field(d, "BodyBytes"), mkField(raw, "BodyBytes", nil)) {
			why = "the signed body is " + field(d, "BodyBytes").String()
			continue
		}
		if !same(field(d, "AuthInfoBytes"), mkField(raw, "AuthInfoBytes", nil)) {
			why = "the signed auth info is " + field(d, "AuthInfoBytes").String()
			continue
		}
		chain := false
		for _, e := range fetched(p, facts, "v1alpha1.InitChainInfo") {
			if isSingleton(e.Deep[0]) && same(field(d, "ChainId"), mkField(evOut(e, 1), "ChainId", nil)) {
				chain = true
			}
		}
		if !chain {
			why = "the signed chain id is " + field(d, "ChainId").String() + ", not the stored one"
			continue
		}
		acc := false
		for _, e := range fetched(p, facts, "authn/v1alpha1.Account") {
			if same(idString(e.Deep[0]), mkField(s, "Address", nil)) && same(field(d, "AccountNumber"), mkField(evOut(e, 1), "AccountNumber", nil)) {
				acc = true
			}
		}
		if !acc {
			why = "the signed account number is " + field(d, "AccountNumber").String() + ", not the one stored for the signer's address"
			continue
		}
		return true, ""
	}
	return false, why
}

func c07(c *Ctx) {
	s := c.system()
	w := c.wrapper()
	if w == nil {
		return
	}
	hs := s.handlers("auth")
	h, why := c.acceptedBy(hs, Cfg{}, func(h *Handler, p *Path, facts map[*T]bool, req *T) (bool, string) {
		col := deepStrip(c.evalOn(nil, w, req, "Signers"))
		raw := deepStrip(c.evalOn(nil, w, req, "TxRaw"))
		idx, done := elems(facts, col)
		if !done {
			return false, "not every signer of the transaction is verified"
		}
		for _, i := range idx {
			ok, x := c.verified(p, facts, mkElem(col, i, nil), raw)
			if !ok {
				return false, x
			}
		}
		return true, ""
	})
	c.Check(h != nil, "every-signature-verified", "transaction admission", "-", "no admission handler verifies every signature of a transaction before accepting it: %s", why)
	// the module that verifies is the one whose decoder is in force
	c.decodeResult(func(rule, pos, f string, a ...interface{}) {
		c.Check(false, rule, "Decode", pos, f, a...)
	}, func(rule string) { c.Check(true, rule, "Decode", "", "") }, true)
	c.pubKeyVerify()
}

// seqItems lists the (index, value) pairs a slice value is known to hold and
// whether it is known to hold nothing else, given how many elements col has.
func seqItems(facts map[*T]bool, t, col *T) (vals map[*T]*T, ok bool) {
	vals = map[*T]*T{}
	t = deepStrip(t)
	idx, done := elems(facts, col)
	switch t.Op {
	case "mslice":
		if l := mk("len", "", types.Typ[types.Int], deepStrip(col)); !same(t.A[0], l) {
			eq, k1 := decideIn(facts, mk("eq", "", nil, deepStrip(t.A[0]), l))
			if !k1 {
				eq, k1 = decideIn(facts, mk("eq", "", nil, l, deepStrip(t.A[0])))
			}
			if n, k := deepStrip(t.A[0]).intVal(); !(k1 && eq) && (!k || n != int64(len(idx))) {
				return nil, false
			}
		}
		for i := 1; i+1 < len(t.A); i += 2 {
			vals[deepStrip(t.A[i])] = deepStrip(t.A[i+1])
		}
		return vals, done
	case "slicelit":
		if len(t.A) != len(idx) {
			return nil, false
		}
		for k, v := range t.A {
			vals[deepStrip(idx[k])] = deepStrip(v)
		}
		return vals, done
	case "nil":
		return vals, done && len(idx) == 0
	}
	return nil, false
}

// unmarshalled returns the events that decode the given bytes into a value of
// the named type.
func unmarshalled(p *Path, facts map[*T]bool, b *T, typ string) *Event {
	for _, e := range p.Events {
		if !strings.HasSuffix(e.Fn, "proto.Unmarshal") && !strings.HasSuffix(e.Fn, "proto.UnmarshalOptions).Unmarshal") {
			continue
		}
		n := len(e.Args)
		_, into := boxed(e.Args[n-1])
		if into != nil && into.Typ != nil && strings.HasSuffix(tname(into.Typ), typ) && same(e.Args[n-2], b) && e.okIn(facts) {
			return e
		}
	}
	return nil
}

// noUnknown: the decoded message is known to carry no unknown fields.
func noUnknown(facts map[*T]bool, m *T) bool {
	for a, v := range facts {
		if v && a.Op == "eq" && a.A[0].Op == "len" && intEq(a.A[1], 0) {
			u := a.A[0].A[0]
			if u.Op == "call" && strings.HasSuffix(u.S, "Message).GetUnknown") && contains(u, m) {
				return true
			}
		}
	}
	return false
}

// usersOf lists the names that a users value was built from: the keys stored
// into the maps it refers to.
func usersOf(p *Path, u *T) map[*T]bool {
	out := map[*T]bool{}
	for k := range p.st.mem {
		if k.Op == "mapent" && contains(u, k.A[0]) {
			out[deepStrip(k.A[1])] = true
		}
	}
	return out
}

// decodeResult analyses the decoder in force. With binding, only the rules
// that tie what is executed to what is signed are applied; otherwise the
// strictness rules are.
func (c *Ctx) decodeResult(bad func(rule, pos, f string, a ...interface{}), good func(rule string), binding bool) {
	w := c.wrapper()
	ifc := c.P.named("runtime/authentication", "TxDecoder")
	if w == nil || ifc == nil {
		return
	}
	n := 0
	for _, t := range c.P.implementers(ifc) {
		f := unwrap(c.P, c.methodFor(t, "DecodeTx"))
		if f == nil || strings.Contains(fnPkgPath(f), "testdata") {
			continue
		}
		ps := c.run(f, Cfg{LoopK: 2})
		okAny := false
		raw0 := mk("param", f.Params[len(f.Params)-1].Name(), nil)
		for _, p := range ps {
			if p.Outcome == "panic" {
				if !binding && !c.infeasiblePanic(p) {
					bad("decode-no-panic", p.Pos, "decoding a transaction can panic at %s", p.Pos)
				}
				continue
			}
			facts, succ := p.success()
			if !succ {
				continue
			}
			if n, known := isNilIn(facts, p.Ret[0]); known && n {
				if e := p.errRet(); !binding && e != nil && e.isNil() {
					bad("decodes-to-wrapper", p.Pos, "decoding yields no transaction and reports no error")
				}
				continue
			}
			okAny = true
			chk := func(cond bool, rule, f string, a ...interface{}) bool {
				if cond {
					good(rule)
				} else {
					bad(rule, p.Pos, f, a...)
				}
				return cond
			}
			c.decodedPath(p, facts, w, raw0, binding, chk)
		}
		if okAny {
			n++
		}
	}
	if n == 0 {
		bad("decoder-found", "-", "no transaction decoder that can succeed was found")
	}
}

// infeasiblePanic: the panic is a type assertion of a value whose type was
// looked up among registered types.
func (c *Ctx) infeasiblePanic(p *Path) bool {
	for a, v := range p.facts {
		if !v && a.Op == "isa" && strings.Contains(a.S, "crypto.PubKey") && findTerm(a.A[0], func(t *T) bool { return t.Op == "res" && strings.HasPrefix(t.S, "UnmarshalNew#") }) != nil {
			// guarded by the table of supported key types
			for b, w := range p.facts {
				if w && b.Op == "mapok" && b.A[1].Op == "field" && b.A[1].S == "TypeUrl" {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) decodedPath(p *Path, facts map[*T]bool, w types.Type, raw0 *T, binding bool, chk func(cond bool, rule, f string, a ...interface{}) bool) {
	ct, ptr := boxed(p.Ret[0])
	if !chk(ct != nil && types.Identical(ct, w), "decodes-to-wrapper", "decoding yields %v", p.Ret[0]) {
		return
	}
	ev := func(m string) *T { return c.evalOn(p.st, w, ptr, m) }
	eraw := unmarshalled(p, facts, raw0, "v1alpha1.TxRaw")
	if !chk(eraw != nil, "decode-received-bytes", "the transaction is not decoded from the bytes received") {
		return
	}
	nx := func(e *Event) *T { return deepStrip(evOut(e, len(e.Args)-1)) }
	raw := nx(eraw)
	ebody := unmarshalled(p, facts, mkField(raw, "BodyBytes", nil), "v1alpha1.TxBody")
	eauth := unmarshalled(p, facts, mkField(raw, "AuthInfoBytes", nil), "v1alpha1.AuthInfo")
	if !chk(ebody != nil && eauth != nil, "decode-received-bytes", "the body or the auth info are not decoded from the signed bytes") {
		return
	}
	body, auth := nx(ebody), nx(eauth)
	infos := mkField(auth, "SignerInfos", nil)
	sigs := deepStrip(mkField(raw, "Signatures", nil))
	msgs := mkField(body, "Messages", nil)
	if binding {
		r := deepStrip(ev("TxRaw"))
		chk(r != nil && (r == raw || same(field(r, "BodyBytes"), mkField(raw, "BodyBytes", nil)) && same(field(r, "AuthInfoBytes"), mkField(raw, "AuthInfoBytes", nil))), "signed-bytes-kept", "the bytes presented for verification are %v, not those received", r)
		rw := ev("Raw")
		chk(rw != nil && same(field(rw, "Body"), body) && same(field(rw, "AuthInfo"), auth), "raw-is-decoded", "the raw transaction presented to handlers is %v", rw)
	} else {
		chk(same(ev("RawBytes"), raw0), "raw-bytes", "the raw bytes presented are not those received")
	}
	// transitions
	sts := ev("StateTransitions")
	vals, ok := seqItems(facts, sts, msgs)
	idx, _ := elems(facts, msgs)
	if binding {
		chk(ok, "transitions-are-the-messages", "the state transitions are %v, which are not one for each message of the body", sts)
		for _, i := range idx {
			v := vals[deepStrip(i)]
			good := false
			for _, e := range p.Events {
				if strings.HasSuffix(e.Fn, "anypb.UnmarshalNew") && v != nil && deepStrip(e.Res[0]) == v && e.okIn(facts) && same(e.Args[0], mkElem(msgs, i, nil)) {
					good = true
				}
			}
			chk(good, "transitions-are-the-messages", "state transition %v is %v, not the message at that place", i, v)
		}
	} else {
		chk(len(idx) > 0 && knownNonEmpty(facts, msgs), "at-least-one-message", "a transaction without messages is accepted")
		for _, i := range idx {
			v := vals[deepStrip(i)]
			isST := false
			for a, t := range facts {
				if t && a.Op == "isa" && strings.HasSuffix(a.S, "meta.StateTransition") && v != nil && deepStrip(a.A[0]) == v {
					isST = true
				}
			}
			chk(isST, "messages-are-transitions", "a message that is not a state transition is accepted")
		}
	}
	// signers
	sg := ev("Signers")
	sv, ok2 := seqItems(facts, sg, infos)
	jdx, _ := elems(facts, infos)
	addrs := map[*T]bool{}
	if binding {
		chk(ok2, "signers-are-the-infos", "the signers are %v, which are not one for each signer info", sg)
	} else {
		chk(len(jdx) > 0 && knownNonEmpty(facts, infos), "at-least-one-signer", "a transaction without signers is accepted")
		leq, k := decideIn(facts, mk("eq", "", nil, mk("len", "", types.Typ[types.Int], sigs), mk("len", "", types.Typ[types.Int], deepStrip(infos))))
		if !k {
			leq, k = decideIn(facts, mk("eq", "", nil, mk("len", "", types.Typ[types.Int], deepStrip(infos)), mk("len", "", types.Typ[types.Int], sigs)))
		}
		if !k {
			// equality derived: both lengths fixed
			a, d1 := elems(facts, sigs)
			leq, k = len(a) == len(jdx), d1
		}
		chk(k && leq, "one-signature-per-signer", "a transaction whose numbers of signatures and signers differ is accepted")
	}
	for _, j := range jdx {
		info := mkElem(infos, j, nil)
		s := sv[deepStrip(j)]
		if s == nil {
			continue
		}
		pk := deepStrip(field(s, "PubKey"))
		addr := deepStrip(field(s, "Address"))
		addrs[addr] = true
		var e *Event
		for _, x := range p.Events {
			if strings.HasSuffix(x.Fn, "anypb.UnmarshalNew") && deepStrip(x.Res[0]) == pk && x.okIn(facts) && same(x.Args[0], mkField(info, "PublicKey", nil)) {
				e = x
			}
		}
		if binding {
			chk(e != nil, "signer-key", "the key of signer %v is %v, which was not decoded from its signer info", j, pk)
			chk(same(field(s, "Signature"), mkElem(sigs, j, nil)), "signer-signature", "the signature of signer %v is %v", j, field(s, "Signature"))
			chk(same(field(s, "Sequence"), mkField(info, "Sequence", nil)), "signer-sequence", "the sequence of signer %v is %v", j, field(s, "Sequence"))
			chk(findTerm(addr, func(t *T) bool {
				return t.Op == "call" && strings.HasSuffix(t.S, "crypto.PubKey).Address") && deepStrip(t.A[0]) == pk
			}) != nil && strings.Contains(addr.S, "bech32.ConvertAndEncode"), "signer-address", "the address of signer %v is %v, which is not derived from its key", j, addr)
		} else {
			valid := false
			for a, v := range facts {
				if a.Op == "isa" && strings.Contains(a.S, "Validate() error") && deepStrip(a.A[0]) == pk {
					if !v {
						valid = true
					}
				}
			}
			for _, x := range p.Events {
				if strings.HasSuffix(x.Fn, ".Validate") && x.Recv != nil && deepStrip(x.Recv) == pk && x.okIn(facts) {
					valid = true
				}
			}
			chk(valid, "signer-key-valid", "signer %v is accepted although its key was not validated", j)
			sup := false
			for a, v := range facts {
				if v && a.Op == "mapok" && same(a.A[1], mkField(mkField(info, "PublicKey", nil), "TypeUrl", nil)) {
					sup = true
				}
			}
			chk(sup, "signer-key-supported", "signer %v is accepted although its key type was not looked up among the supported ones", j)
			n, k := isNilIn(facts, mkField(info, "PublicKey", nil))
			chk(k && !n, "signer-key-present", "signer %v is accepted without a key", j)
			dir, _ := c.P.constInt("x/authn/v1alpha1", "SignMode_SIGN_MODE_DIRECT")
			direct := false
			for a, v := range facts {
				if v && a.Op == "eq" && a.A[0].Op == "field" && a.A[0].S == "Mode" && intEq(a.A[1], dir) && contains(a.A[0], deepStrip(mkField(info, "ModeInfo", nil))) {
					direct = true
				}
			}
			chk(direct, "sign-mode-direct", "signer %v is accepted with a signing mode other than direct", j)
		}
	}
	// users and payer
	us := ev("Users")
	names := usersOf(p, us)
	if binding {
		chk(len(names) == len(addrs) && len(names) > 0, "users-are-the-signers", "the users of the transaction are %d names for %d signers", len(names), len(addrs))
		for a := range addrs {
			chk(names[a], "users-are-the-signers", "signer %v is not one of the users", a)
		}
		pay := deepStrip(ev("Payer"))
		isSigner := addrs[pay]
		fee := deepStrip(mkField(mkField(auth, "Fee", nil), "Payer", nil))
		for a, v := range facts {
			if v && a.Op == "mapok" && deepStrip(a.A[1]) == pay {
				isSigner = isSigner || len(usersKeys(p, a.A[0])) > 0 && subset(usersKeys(p, a.A[0]), addrs)
			}
			if v && a.Op == "eq" && (deepStrip(a.A[0]) == pay && addrs[deepStrip(a.A[1])] || deepStrip(a.A[1]) == pay && addrs[deepStrip(a.A[0])]) {
				isSigner = true
			}
		}
		chk(isSigner, "payer-signed", "the fee payer is %v, who is not known to be a signer", pay)
		named := false
		if v, k := decideIn(facts, mk("eq", "", nil, mk("len", "", types.Typ[types.Int], fee), mkInt(0))); k && v {
			named = true // no payer named
		}
		if v, k := isNilIn(facts, mkField(auth, "Fee", nil)); k && v {
			named = true
		}
		if named {
			first := sv[mkInt(0)]
			chk(first != nil && same(pay, field(first, "Address")), "payer-default", "without a named payer the fee payer is %v, not the first signer", pay)
		} else {
			chk(pay == fee || hasEq(facts, pay, fee), "payer-named", "the fee payer is %v although the transaction may name another", pay)
		}
		amt := ev("Fee")
		chk(amt != nil && same(amt, mkField(mkField(auth, "Fee", nil), "Amount", nil)), "fee-as-signed", "the fee of the transaction is %v, not the one in its auth info", amt)
	} else {
		for _, m := range []struct {
			n string
			t *T
		}{{"transaction", raw}, {"body", body}, {"auth info", auth}} {
			chk(noUnknown(facts, m.t), "unknown-fields-rejected", "unknown fields in the %s are accepted", m.n)
		}
		n, k := isNilIn(facts, mkField(auth, "Fee", nil))
		chk(k && !n, "fee-present", "a transaction without fee is accepted")
	}
}

func hasEq(facts map[*T]bool, a, b *T) bool {
	v, k := decideIn(facts, mk("eq", "", nil, a, b))
	if !k {
		v, k = decideIn(facts, mk("eq", "", nil, b, a))
	}
	return k && v
}

func usersKeys(p *Path, m *T) map[*T]bool {
	out := map[*T]bool{}
	for k := range p.st.mem {
		if k.Op == "mapent" && k.A[0] == deepStrip(m) {
			out[deepStrip(k.A[1])] = true
		}
	}
	return out
}

func subset(a, b map[*T]bool) bool {
	for x := range a {
		if !b[x] {
			return false
		}
	}
	return true
}

func knownNonEmpty(facts map[*T]bool, col *T) bool {
	v, k := decideIn(facts, mk("eq", "", nil, mk("len", "", types.Typ[types.Int], deepStrip(col)), mkInt(0)))
	return k && !v
}

func c09(c *Ctx) {
	c.decodeResult(func(rule, pos, f string, a ...interface{}) {
		c.Check(false, rule, "Decode", pos, f, a...)
	}, func(rule string) { c.Check(true, rule, "Decode", "", "") }, false)
}

// ---------------------------------------------------------------- sequence

// objWrites lists the client writes on a path with the type written.
type objWrite struct {
	*Event
	Type string
	Obj  *T
}

func objWrites(p *Path) []objWrite {
	var out []objWrite
	for _, e := range p.Events {
		if e.Kind != "call" || e.Fn != fnClientCr && e.Fn != fnClientUp && e.Fn != fnClientDel {
			continue
		}
		d := e.Deep[0]
		tn := objType(d)
		if t, _ := boxed(e.Args[0]); t != nil {
			tn = tname(t)
		}
		out = append(out, objWrite{e, tn, d})
	}
	return out
}

// kept: the object written is the one read into, with the listed fields
// changed and every other field as read.
func (c *Ctx) unchanged(d *T, src *T, except ...string) (bool, string) {
	if same(d, src) {
		return true, ""
	}
	if d == nil || d.Op != "obj" {
		return false, "?"
	}
	for i, n := range strings.Split(d.S, ";")[1:] {
		skip := !types.NewVar(0, nil, n, nil).Exported()
		for _, x := range except {
			skip = skip || x == n
		}
		if !skip && !same(d.A[i], mkField(src, n, nil)) {
			return false, n
		}
	}
	return true, ""
}

func plusOne(t, base *T) bool {
	t = deepStrip(t)
	if x, n := splitAdd(t); n == 1 && same(x, base) {
		return true
	}
	return false
}

func c08(c *Ctx) {
	s := c.system()
	w := c.wrapper()
	if w == nil {
		return
	}
	h, why := c.acceptedBy(s.handlers("auth"), Cfg{}, func(h *Handler, p *Path, facts map[*T]bool, req *T) (bool, string) {
		col := deepStrip(c.evalOn(nil, w, req, "Signers"))
		idx, done := elems(facts, col)
		if !done {
			return false, "not every signer's sequence is compared"
		}
		for _, i := range idx {
			sg := mkElem(col, i, nil)
			ok := false
			for _, e := range fetched(p, facts, "authn/v1alpha1.Account") {
				if same(idString(e.Deep[0]), mkField(sg, "Address", nil)) && hasEq(facts, deepStrip(mkField(evOut(e, 1), "Sequence", nil)), deepStrip(mkField(sg, "Sequence", nil))) {
					ok = true
				}
			}
			if !ok {
				return false, "the sequence of " + sg.String() + " is not compared with the one stored for its address"
			}
		}
		return true, ""
	})
	c.Check(h != nil, "sequence-compared", "transaction admission", "-", "no admission handler requires the stored sequence of every signer: %s", why)
	h2, why2 := c.acceptedBy(s.handlers("postauth"), Cfg{}, func(h *Handler, p *Path, facts map[*T]bool, req *T) (bool, string) {
		tx := mkField(req, "Tx", nil)
		list := mk("call", "(runtime/authentication/user.Users).List", nil, mk("call", fnTxUsers, nil, deepStrip(tx)))
		var cols = []*T{list}
		if sg := c.evalOn(nil, w, tx, "Signers"); sg != nil {
			cols = append(cols, deepStrip(sg))
		}
		why := "not every user's sequence is increased"
		for k, col := range cols {
			idx, done := elems(facts, col)
			if !done {
				continue
			}
			ok := true
			for _, i := range idx {
				name := mk("call", fnUserGetName, nil, deepStrip(mkElem(col, i, nil)))
				if k == 1 {
					name = deepStrip(mkField(mkElem(col, i, nil), "Address", nil))
				}
				n := 0
				for _, wr := range objWrites(p) {
					if wr.Fn == fnClientUp && strings.HasSuffix(wr.Type, "authn/v1alpha1.Account") && wr.okIn(facts) {
						for _, e := range fetched(p, facts, "authn/v1alpha1.Account") {
							if e.Seq < wr.Seq && same(idString(e.Deep[0]), name) && plusOne(field(wr.Obj, "Sequence"), mkField(evOut(e, 1), "Sequence", nil)) {
								n++
							}
						}
					}
				}
				if n != 1 {
					ok, why = false, "the sequence of "+name.String()+" is increased "+itoa(n)+" times"
				}
			}
			if ok && k == 0 {
				return true, ""
			}
			if ok && k == 1 {
				return false, "the sequence is increased once per signature rather than once per user"
			}
		}
		return false, why
	})
	c.Check(h2 != nil, "sequence-increased", "post authentication", "-", "no post authentication step increases the sequence of every user of the transaction by one: %s", why2)
	// nothing else touches sequences
	var all []*Handler
	for _, k := range []string{"exec", "preexec", "postexec", "postauth"} {
		all = append(all, s.handlers(k)...)
	}
	n := 0
	for _, h := range all {
		ps, _, _ := c.runHandler(h, c.wiringCfg(h))
		for _, p := range ps {
			facts, _ := p.success()
			for _, wr := range objWrites(p) {
				if !strings.HasSuffix(wr.Type, "authn/v1alpha1.Account") {
					continue
				}
				n++
				switch wr.Fn {
				case fnClientCr:
					c.Check(intEq(field(wr.Obj, "Sequence"), 0), "sequence-starts-at-zero", fname(h.Fn), wr.Pos, "an account is created with sequence %v", field(wr.Obj, "Sequence"))
				case fnClientDel:
					c.Check(false, "accounts-kept", fname(h.Fn), wr.Pos, "an account is deleted, so its sequence can start again")
				case fnClientUp:
					ok := false
					seq := field(wr.Obj, "Sequence")
					for _, e := range p.calls(fnClientGet) {
						if e.Seq > wr.Seq || !strings.HasSuffix(readInto(e), "authn/v1alpha1.Account") || !e.okIn(p.factsBefore(wr.Seq)) {
							continue
						}
						src := evOut(e, 1)
						good, _ := c.unchanged(wr.Obj, src, "Sequence", "PubKey")
						if good && (same(seq, mkField(src, "Sequence", nil)) || h2 == h && plusOne(seq, mkField(src, "Sequence", nil))) {
							ok = true
						}
					}
					c.Check(ok, "sequence-only-increased", fname(h.Fn), wr.Pos, "an account is updated to %v: the sequence is neither the stored one nor, in the sequence step, its successor", wr.Obj)
				}
			}
			_ = facts
		}
	}
	c.Check(n > 0, "account-writes-found", "accounts", "-", "no account write was found")
}

// wiringCfg: settings under which a handler can be enumerated.
func (c *Ctx) wiringCfg(h *Handler) Cfg {
	if h.Kind == "postexec" {
		return Cfg{Generic: true, LoopK: 1, Opaque: func(n string) bool { return n == fnExtendRaw }, OpaqueFn: c.returnsACL}
	}
	return Cfg{}
}

// ---------------------------------------------------------------- limits

func c12(c *Ctx) {
	s := c.system()
	w := c.wrapper()
	if w == nil {
		return
	}
	hs := s.handlers("auth")
	// the decoded transaction as handlers see it
	raw := func(req *T) *T {
		return mk("call", "(runtime/authentication.Tx).Raw", nil, req)
	}
	body := func(req *T, fld string) []*T {
		out := []*T{deepStrip(mkField(mkField(raw(req), "Body", nil), fld, nil))}
		if t := c.evalOn(nil, w, req, "Raw"); t != nil {
			out = append(out, deepStrip(mkField(mkField(t, "Body", nil), fld, nil)))
		}
		return out
	}
	param := func(p *Path, facts map[*T]bool, typ, fld string) []*T {
		var out []*T
		for _, e := range fetched(p, facts, typ) {
			if isSingleton(e.Deep[0]) {
				out = append(out, deepStrip(mkField(evOut(e, 1), fld, nil)))
			}
		}
		return out
	}
	le := func(facts map[*T]bool, a, b *T) bool { // a <= b known
		v, k := decideIn(facts, mk("lt", "", nil, b, a))
		return k && !v
	}
	h, why := c.acceptedBy(hs, Cfg{}, func(h *Handler, p *Path, facts map[*T]bool, req *T) (bool, string) {
		for _, memo := range body(req, "Memo") {
			for _, max := range param(p, facts, "authn/v1alpha1.Params", "MaxMemoCharacters") {
				for a, v := range facts {
					if a.Op == "lt" && !v && a.A[0] == max && isLenOf(a.A[1], memo) {
						return true, ""
					}
				}
			}
		}
		return false, "the memo length is not known to be within the stored limit"
	})
	c.Check(h != nil, "memo-limit", "transaction admission", "-", "no admission handler limits the memo: %s", why)
	h, why = c.acceptedBy(hs, Cfg{}, func(h *Handler, p *Path, facts map[*T]bool, req *T) (bool, string) {
		for _, to := range body(req, "TimeoutHeight") {
			if v, k := decideIn(facts, mk("eq", "", nil, to, mkInt(0))); k && v {
				return true, ""
			}
			for _, cur := range param(p, facts, "abci/v1alpha1.CurrentBlock", "BlockNumber") {
				if le(facts, cur, to) {
					return true, ""
				}
			}
		}
		return false, "the transaction may be past its timeout height"
	})
	c.Check(h != nil, "timeout-height", "transaction admission", "-", "no admission handler enforces the timeout height: %s", why)
	h, why = c.acceptedBy(hs, Cfg{}, func(h *Handler, p *Path, facts map[*T]bool, req *T) (bool, string) {
		col := deepStrip(c.evalOn(nil, w, req, "Signers"))
		idx, done := elems(facts, col)
		for _, max := range param(p, facts, "authn/v1alpha1.Params", "TxSigLimit") {
			// max is at least ...
			atLeast := func(x *T) bool {
				if n, ok := x.intVal(); ok && n == 1 {
					if v, k := decideIn(facts, mk("eq", "", nil, max, mkInt(0))); k && !v {
						return true
					}
				}
				for a, v := range facts {
					if a.Op == "lt" && !v && a.A[0] == max && number(a.A[1]) == number(x) {
						return true
					}
				}
				return false
			}
			for a, v := range facts {
				if a.Op != "lt" || v || a.A[0] != max {
					continue
				}
				if isLenOf(a.A[1], col) {
					return true, ""
				}
				// at least x, and x is not below the number of signers
				for b, w := range facts {
					if b.Op == "lt" && !w && isLenOf(b.A[1], col) && number(b.A[0]) == number(a.A[1]) {
						return true, ""
					}
				}
			}
			if done && len(idx) > 0 {
				last := idx[len(idx)-1]
				if atLeast(addInt(last, 1)) {
					return true, ""
				}
			}
		}
		if done && len(idx) == 0 {
			return true, ""
		}
		return false, "the number of signatures is not known to be within the stored limit"
	})
	c.Check(h != nil, "signature-limit", "transaction admission", "-", "no admission handler limits the number of signatures: %s", why)
	h, why = c.acceptedBy(hs, Cfg{}, func(h *Handler, p *Path, facts map[*T]bool, req *T) (bool, string) {
		list := mk("call", "(runtime/authentication/user.Users).List", nil, mk("call", fnTxUsers, nil, deepStrip(req)))
		for k, col := range []*T{list, deepStrip(c.evalOn(nil, w, req, "Signers"))} {
			idx, done := elems(facts, col)
			if !done {
				continue
			}
			all := true
			for _, i := range idx {
				name := mk("call", fnUserGetName, nil, deepStrip(mkElem(col, i, nil)))
				if k == 1 {
					name = deepStrip(mkField(mkElem(col, i, nil), "Address", nil))
				}
				got := false
				for _, e := range fetched(p, facts, "authn/v1alpha1.Account") {
					got = got || same(idString(e.Deep[0]), name)
				}
				all = all && got
			}
			if all {
				return true, ""
			}
		}
		return false, "the accounts of the signers are not known to exist"
	})
	c.Check(h != nil, "accounts-exist", "transaction admission", "-", "no admission handler requires the signers' accounts to exist: %s", why)
	// rejections carry a reason: no handler refuses a transaction within limits
	for _, h := range hs {
		ps, req, _ := c.runHandler(h, Cfg{})
		any := false
		for _, p := range ps {
			facts, ok := p.success()
			any = any || ok
			if ok || p.Outcome != "return" || len(p.Facts) == 0 {
				continue
			}
			facts = p.facts
			// what decided the refusal
			last := p.Facts[len(p.Facts)-1]
			if last.Atom.Op != "lt" && last.Atom.Op != "eq" {
				continue
			}
			x, y := last.Atom.A[0], last.Atom.A[1]
			over := func(lo, hi *T) bool { return last.Atom.Op == "lt" && last.Val && number(x) == lo && number(y) == hi }
			for _, memo := range body(req, "Memo") {
				for _, max := range param(p, facts, "authn/v1alpha1.Params", "MaxMemoCharacters") {
					l := mk("len", "", nil, memo)
					if contains(x, max) && isLenOf(y, memo) || contains(y, max) && isLenOf(x, memo) {
						c.Check(over(max, l), "memo-limit", fname(h.Fn), p.Pos, "a transaction is refused although its memo is within the limit")
					}
				}
			}
			for _, to := range body(req, "TimeoutHeight") {
				for _, cur := range param(p, facts, "abci/v1alpha1.CurrentBlock", "BlockNumber") {
					if contains(last.Atom, to) && contains(last.Atom, cur) {
						v, k := decideIn(facts, mk("eq", "", nil, to, mkInt(0)))
						c.Check(over(to, cur) && k && !v, "timeout-height", fname(h.Fn), p.Pos, "a transaction is refused although it is not past its timeout height")
					}
				}
			}
			for _, max := range param(p, facts, "authn/v1alpha1.Params", "TxSigLimit") {
				if contains(last.Atom, max) && last.Atom.Op == "lt" {
					c.Check(last.Val && number(x) == max, "signature-limit", fname(h.Fn), p.Pos, "a transaction is refused although its signatures are within the limit")
				}
			}
		}
		c.Check(any, "acceptance-possible", fname(h.Fn), c.P.pos(h.Fn.Pos()), "%s accepts no transaction at all", fname(h.Fn))
	}
}

func isLenOf(t, s *T) bool {
	t = deepStrip(t)
	for t.Op == "conv" {
		t = deepStrip(t.A[0])
	}
	return t.Op == "len" && same(t.A[0], s)
}

// ---------------------------------------------------------------- accounts

func c32(c *Ctx) {
	s := c.system()
	const accT, numT = "authn/v1alpha1.Account", "authn/v1alpha1.CurrentAccountNumber"
	hs := s.handlersFor("exec", "x/authn/v1alpha1.MsgCreateAccount")
	c.Check(len(hs) == 1, "one-handler", "MsgCreateAccount", "-", "%d handlers create accounts", len(hs))
	isCreate := map[*ssa.Function]bool{}
	for _, h := range hs {
		isCreate[h.Fn] = true
		ps, _, msg := c.runHandler(h, Cfg{})
		acc := mkField(msg, "Account", nil)
		okAny := false
		for _, p := range ps {
			facts, ok := p.success()
			if !ok {
				continue
			}
			okAny = true
			nums := fetched(p, facts, numT)
			var num *T
			for _, e := range nums {
				if isSingleton(e.Deep[0]) {
					num = deepStrip(mkField(evOut(e, 1), "Number", nil))
				}
			}
			if !c.Check(num != nil, "number-read", fname(h.Fn), p.Pos, "an account is created without reading the account number counter") {
				continue
			}
			nc, nu := 0, 0
			for _, w := range objWrites(p) {
				switch {
				case strings.HasSuffix(w.Type, accT) && w.Fn == fnClientCr:
					nc++
					c.Check(same(field(w.Obj, "Address"), mkField(acc, "Address", nil)), "account-address", fname(h.Fn), w.Pos, "the account is created for address %v", field(w.Obj, "Address"))
					c.Check(same(field(w.Obj, "PubKey"), mkField(acc, "PubKey", nil)), "account-key", fname(h.Fn), w.Pos, "the account is created with key %v", field(w.Obj, "PubKey"))
					c.Check(same(field(w.Obj, "AccountNumber"), num), "account-number", fname(h.Fn), w.Pos, "the account gets number %v instead of the counter's value", field(w.Obj, "AccountNumber"))
					c.Check(intEq(field(w.Obj, "Sequence"), 0), "account-sequence", fname(h.Fn), w.Pos, "the account starts with sequence %v", field(w.Obj, "Sequence"))
					c.Check(w.okIn(facts), "account-created", fname(h.Fn), w.Pos, "success although the account may not have been created")
				case strings.HasSuffix(w.Type, numT) && w.Fn == fnClientUp:
					nu++
					c.Check(plusOne(field(w.Obj, "Number"), num), "counter-increased", fname(h.Fn), w.Pos, "the counter becomes %v instead of its successor", field(w.Obj, "Number"))
					c.Check(w.okIn(facts), "counter-increased", fname(h.Fn), w.Pos, "success although the counter may not have been updated")
				default:
					c.Check(false, "only-account-and-counter", fname(h.Fn)+"→"+w.Fn, w.Pos, "creating an account also writes %s", w.Type)
				}
			}
			c.Check(nc == 1, "account-created", fname(h.Fn), p.Pos, "creating an account succeeds with %d accounts created", nc)
			c.Check(nu == 1, "counter-increased", fname(h.Fn), p.Pos, "creating an account succeeds with %d updates of the counter", nu)
		}
		c.Check(okAny, "creation-possible", fname(h.Fn), c.P.pos(h.Fn.Pos()), "accounts can never be created")
	}
	// admission
	h, why := c.acceptedBy(s.handlersFor("admission", "x/authn/v1alpha1.MsgCreateAccount"), Cfg{}, func(h *Handler, p *Path, facts map[*T]bool, req *T) (bool, string) {
		acc := mkField(mkField(req, "Transition", nil), "Account", nil)
		if n, k := isNilIn(facts, acc); !k || n {
			return false, "a missing account is admitted"
		}
		if !knownNonEmpty(facts, mkField(acc, "Address", nil)) {
			return false, "an account without address is admitted"
		}
		return true, ""
	})
	c.Check(h != nil, "account-admission", "MsgCreateAccount", "-", "creating an account is not checked: %s", why)
	// nobody else touches the counter or creates accounts
	var all []*Handler
	for _, k := range []string{"exec", "preexec", "postexec", "postauth"} {
		all = append(all, s.handlers(k)...)
	}
	for _, h := range all {
		if isCreate[h.Fn] {
			continue
		}
		ps, _, _ := c.runHandler(h, c.wiringCfg(h))
		for _, p := range ps {
			for _, w := range objWrites(p) {
				if strings.HasSuffix(w.Type, numT) {
					c.Check(false, "counter-owner", fname(h.Fn), w.Pos, "%s writes the account number counter", fname(h.Fn))
				}
				if strings.HasSuffix(w.Type, accT) {
					if w.Fn != fnClientUp {
						c.Check(false, "account-owner", fname(h.Fn), w.Pos, "%s writes accounts through %s", fname(h.Fn), w.Fn)
						continue
					}
					ok := false
					for _, e := range p.calls(fnClientGet) {
						if e.Seq < w.Seq && strings.HasSuffix(readInto(e), accT) {
							g, _ := c.unchanged(w.Obj, evOut(e, 1), "Sequence", "PubKey")
							ok = ok || g
						}
					}
					c.Check(ok, "account-identity-kept", fname(h.Fn), w.Pos, "an account is updated to %v, which changes its address or number", w.Obj)
				}
			}
		}
	}
	// a stored key is only ever set when there is none
	for _, h := range s.handlers("postauth") {
		ps, _, _ := c.runHandler(h, Cfg{})
		for _, p := range ps {
			for _, w := range objWrites(p) {
				if w.Fn != fnClientUp || !strings.HasSuffix(w.Type, accT) {
					continue
				}
				fb := p.factsBefore(w.Seq)
				ok := false
				for _, e := range p.calls(fnClientGet) {
					if e.Seq > w.Seq || !strings.HasSuffix(readInto(e), accT) {
						continue
					}
					src := evOut(e, 1)
					if same(field(w.Obj, "PubKey"), mkField(src, "PubKey", nil)) {
						ok = true
					}
					if n, k := isNilIn(fb, mkField(src, "PubKey", nil)); k && n {
						ok = true
					}
				}
				c.Check(ok, "key-not-replaced", fname(h.Fn), w.Pos, "the key of an account that has one can be replaced")
			}
		}
	}
	// genesis starts the counter
	for _, m := range s.Mods {
		if m.Gen == nil {
			continue
		}
		for _, p := range c.runMethod(m, m.Gen, "Default", Cfg{}) {
			for _, w := range objWrites(p) {
				if strings.HasSuffix(w.Type, numT) {
					c.Check(w.Fn == fnClientCr, "counter-starts-once", m.Name, w.Pos, "genesis writes the counter through %s", w.Fn)
				}
			}
		}
	}
}
