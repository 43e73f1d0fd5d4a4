package main

import (
	"strings"
)

const (
	fnSafeSub = "core/coin/v1alpha1.SafeSub"
	fnSafeAdd = "core/coin/v1alpha1.SafeAdd"
)

func init() {
	register("C11", "All successful paths of the transfer and set-balance handlers are enumerated: the balances written, their owners, the amounts (results of the checked subtraction and addition of the message's amount to the balances read) and the order of reads and writes. The coin arithmetic is enumerated down to the calls of the coin library. No other handler may write balances.", c11)
}

// flatten lists the pieces a string is made of: constants and values.
func flatten(t *T) []*T {
	t = deepStrip(t)
	switch {
	case t.Op == "bin" && t.S == "+":
		return append(flatten(t.A[0]), flatten(t.A[1])...)
	case t.Op == "call" && (t.S == "fmt.Sprintf" || t.S == "fmt.Sprint") && len(t.A) >= 1:
		args := t.A[1:]
		if len(args) == 1 && args[0].Op == "slicelit" {
			args = args[0].A
		}
		f, ok := t.A[0].strVal()
		if t.S != "fmt.Sprintf" || !ok {
			return []*T{t}
		}
		var out []*T
		lit := ""
		flush := func() {
			if lit != "" {
				out = append(out, mkStr(lit))
				lit = ""
			}
		}
		k := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' || i+1 == len(f) {
				lit += string(f[i])
				continue
			}
			i++
			switch f[i] {
			case '%':
				lit += "%"
			case 's', 'v', 'd':
				flush()
				if k >= len(args) {
					return []*T{t}
				}
				out = append(out, flatten(args[k])...)
				k++
			default:
				return []*T{t}
			}
		}
		flush()
		if k != len(args) {
			return []*T{t}
		}
		return out
	case t.Op == "call" && t.S == "strings.Join" && len(t.A) == 2:
		l := t.A[0]
		var es []*T
		switch l.Op {
		case "slicelit":
			es = l.A
		case "mslice":
			for i := 2; i < len(l.A); i += 2 {
				es = append(es, l.A[i])
			}
		case "nil":
		default:
			return []*T{t}
		}
		var out []*T
		for i, e := range es {
			if i > 0 {
				out = append(out, flatten(t.A[1])...)
			}
			out = append(out, flatten(e)...)
		}
		return out
	}
	if s, ok := t.strVal(); ok && s == "" {
		return nil
	}
	return []*T{t}
}

// parsedFrom: t is the successful parse of all coins of col, each written as
// amount followed by denomination, separated by commas.
func parsedFrom(p *Path, t, col *T) (bool, string) {
	t = deepStrip(t)
	if t.Op != "call" || !strings.HasSuffix(t.S, "ParseCoinsNormalized#0") {
		return false, "it is " + t.String() + ", not the parsed coins"
	}
	ok := false
	for a, v := range p.facts {
		if v && a.Op == "eq" && a.A[1].isNil() && a.A[0].Op == "call" && strings.HasSuffix(a.A[0].S, "ParseCoinsNormalized#1") && a.A[0].A[0] == t.A[0] {
			ok = true
		}
	}
	if !ok {
		return false, "the coins may have failed to parse"
	}
	idx, done := elems(p.facts, col)
	if !done {
		return false, "not every coin is considered"
	}
	var want []*T
	for k, i := range idx {
		if k > 0 {
			want = append(want, mkStr(","))
		}
		el := mkElem(col, i, nil)
		want = append(want, deepStrip(mkField(el, "Amount", nil)), deepStrip(mkField(el, "Denom", nil)))
	}
	var got []*T
	src := t.A[0]
	if src.Op == "res" {
		var end *Event
		for _, e := range p.Events {
			if e.Fn == "(*strings.Builder).String" && deepStrip(e.Res[0]) == src {
				end = e
			}
		}
		if end == nil {
			return false, "the coins are parsed from " + src.String()
		}
		for _, e := range p.Events {
			if e.Seq < end.Seq && strings.HasPrefix(e.Fn, "(*strings.Builder).Write") && strip(e.Args[0]) == strip(end.Args[0]) {
				x := e.Args[1]
				if n, k := x.intVal(); k {
					x = mkStr(string(rune(n)))
				}
				got = append(got, flatten(x)...)
			}
		}
	} else {
		got = flatten(src)
	}
	// merge: compare as sequences
	if len(got) != len(want) {
		return false, "the text parsed is made of " + termList(got)
	}
	for i := range got {
		if got[i] != want[i] {
			return false, "the text parsed is made of " + termList(got)
		}
	}
	return true, ""
}

func termList(ts []*T) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

// balSet is a balance written on a path.
type balSet struct {
	*Event
	Addr, Amount *T
}

func balSets(p *Path) []balSet {
	var out []balSet
	for _, e := range p.Events {
		switch e.Fn {
		case fnClientDlv:
			mt, d := delivered(e)
			if strings.HasSuffix(mt, "bank/v1alpha1.MsgSetBalance") {
				out = append(out, balSet{e, field(d, "Address"), field(d, "Amount")})
			}
		}
	}
	for _, w := range objWrites(p) {
		if strings.HasSuffix(w.Type, "bank/v1alpha1.Balance") {
			out = append(out, balSet{w.Event, field(w.Obj, "Address"), field(w.Obj, "Balance")})
		}
	}
	return out
}

// notFound: the event's error is known to be ErrNotFound.
func notFound(facts map[*T]bool, e *Event) bool {
	if len(e.Res) == 0 {
		return false
	}
	r := deepStrip(e.Res[len(e.Res)-1])
	for a, v := range facts {
		if v && a.Op == "call" && strings.HasSuffix(a.S, "errors.Is") && deepStrip(a.A[0]) == r && strings.HasSuffix(a.A[1].String(), "ErrNotFound") {
			return true
		}
	}
	return false
}

func c11(c *Ctx) {
	s := c.system()
	const balT, setT, sendT = "bank/v1alpha1.Balance", "x/bank/v1alpha1.MsgSetBalance", "x/bank/v1alpha1.MsgSendCoins"
	own := map[string]bool{}
	hs := s.handlersFor("exec", sendT)
	c.Check(len(hs) == 1, "one-handler", "MsgSendCoins", "-", "%d handlers transfer coins", len(hs))
	pure := Cfg{Pure: func(n string) bool { return n == fnSafeAdd || n == fnSafeSub }}
	for _, h := range hs {
		own[fname(h.Fn)] = true
		ps, _, msg := c.runHandler(h, pure)
		from, to, amt := deepStrip(mkField(msg, "FromAddress", nil)), deepStrip(mkField(msg, "ToAddress", nil)), deepStrip(mkField(msg, "Amount", nil))
		okAny, okNew := false, false
		for _, p := range ps {
			facts, ok := p.success()
			if !ok {
				if p.Outcome == "panic" {
					c.Check(false, "no-panic", fname(h.Fn), p.Pos, "a transfer can panic at %s", p.Pos)
				}
				continue
			}
			sets := balSets(p)
			if !c.Check(len(sets) == 2, "two-balances", fname(h.Fn), p.Pos, "a successful transfer writes %d balances", len(sets)) {
				continue
			}
			arith := func(t *T, fn string) (bal *T, a *T, ok bool) {
				t = deepStrip(t)
				if t.Op != "call" || t.S != fn+"#0" || len(t.A) != 2 {
					return nil, nil, false
				}
				e := mk("call", fn+"#1", nil, t.A...)
				n, k := isNilIn(facts, e)
				return t.A[0], t.A[1], k && n
			}
			readOf := func(bal *T, addr *T, after int, before int) bool {
				for _, e := range fetched(p, facts, balT) {
					if e.Seq > after && e.Seq < before && same(idString(e.Deep[0]), addr) && same(bal, mkField(evOut(e, 1), "Balance", nil)) {
						return true
					}
				}
				return false
			}
			var ss, rs *balSet
			for i := range sets {
				if deepStrip(sets[i].Amount).S == fnSafeSub+"#0" {
					ss = &sets[i]
				} else {
					rs = &sets[i]
				}
				c.Check(sets[i].okIn(facts), "writes-succeed", fname(h.Fn), sets[i].Pos, "a transfer succeeds although writing a balance may have failed")
			}
			if !c.Check(ss != nil && rs != nil, "sender-debited", fname(h.Fn), p.Pos, "no balance written is the checked difference of a balance and the amount") {
				continue
			}
			b, a, ok := arith(ss.Amount, fnSafeSub)
			c.Check(ok, "sender-debited", fname(h.Fn), ss.Pos, "the sender's new balance is used although the subtraction may have failed")
			c.Check(same(ss.Addr, from) && same(a, amt), "sender-debited", fname(h.Fn), ss.Pos, "%v is debited %v, not the sender the sent amount", ss.Addr, a)
			c.Check(readOf(b, from, -1, ss.Seq), "sender-debited", fname(h.Fn), ss.Pos, "the amount is subtracted from %v, which is not the sender's stored balance", b)
			b, a, ok = arith(rs.Amount, fnSafeAdd)
			if !c.Check(ok, "receiver-credited", fname(h.Fn), rs.Pos, "the receiver's new balance is %v, not the checked sum of its balance and the amount", rs.Amount) {
				continue
			}
			okAny = true
			c.Check(same(rs.Addr, to) && same(a, amt), "receiver-credited", fname(h.Fn), rs.Pos, "%v is credited %v, not the receiver the sent amount", rs.Addr, a)
			if b.isNil() {
				nf := false
				for _, e := range p.calls(fnClientGet) {
					if e.Seq > ss.Seq && e.Seq < rs.Seq && strings.HasSuffix(readInto(e), balT) && same(idString(e.Deep[0]), to) && notFound(facts, e) {
						nf = true
					}
				}
				c.Check(nf, "receiver-credited", fname(h.Fn), rs.Pos, "the receiver's balance starts from nothing although it is not known to be missing")
				okNew = true
				// the account
				exists := false
				for _, e := range fetched(p, facts, "authn/v1alpha1.Account") {
					exists = exists || same(idString(e.Deep[0]), to)
				}
				for _, e := range p.calls(fnClientDlv) {
					mt, d := delivered(e)
					if strings.HasSuffix(mt, "MsgCreateAccount") {
						c.Check(same(field(field(d, "Account"), "Address"), to), "receiver-account", fname(h.Fn), e.Pos, "an account is created for %v", field(d, "Account"))
						exists = exists || e.okIn(facts)
					}
				}
				c.Check(exists, "receiver-account", fname(h.Fn), p.Pos, "a new receiver can be left without an account")
			} else {
				c.Check(readOf(b, to, ss.Seq, rs.Seq), "receiver-credited", fname(h.Fn), rs.Pos, "the amount is added to %v, which is not the receiver's balance as stored after the sender was debited", b)
			}
			for _, e := range p.Events {
				if !isClientWrite(e.Fn) {
					continue
				}
				mt, _ := delivered(e)
				c.Check(e.Seq == ss.Seq || e.Seq == rs.Seq || strings.HasSuffix(mt, "MsgCreateAccount"), "nothing-else-written", fname(h.Fn)+"→"+e.Fn, e.Pos, "a transfer also writes %v", e.Deep[0])
			}
		}
		c.Check(okAny && okNew, "transfer-possible", fname(h.Fn), c.P.pos(h.Fn.Pos()), "transfers to existing or to new receivers can never succeed")
	}
	// setting a balance
	hs = s.handlersFor("exec", setT)
	c.Check(len(hs) == 1, "one-handler", "MsgSetBalance", "-", "%d handlers set balances", len(hs))
	for _, h := range hs {
		own[fname(h.Fn)] = true
		ps, _, msg := c.runHandler(h, Cfg{})
		up, cr := false, false
		for _, p := range ps {
			facts, ok := p.success()
			if !ok {
				continue
			}
			sets := balSets(p)
			if !c.Check(len(sets) == 1, "one-balance", fname(h.Fn), p.Pos, "setting a balance writes %d balances", len(sets)) {
				continue
			}
			w := sets[0]
			c.Check(same(w.Addr, mkField(msg, "Address", nil)) && same(w.Amount, mkField(msg, "Amount", nil)) && w.okIn(facts), "balance-as-asked", fname(h.Fn), w.Pos, "the balance written is %v of %v", w.Amount, w.Addr)
			good := false
			for _, e := range p.calls(fnClientGet) {
				if e.Seq > w.Seq || !strings.HasSuffix(readInto(e), balT) || !same(idString(e.Deep[0]), mkField(msg, "Address", nil)) {
					continue
				}
				if w.Fn == fnClientUp && e.okIn(facts) {
					good, up = true, true
				}
				if w.Fn == fnClientCr && notFound(facts, e) {
					good, cr = true, true
				}
			}
			c.Check(good, "create-or-update", fname(h.Fn)+"→"+w.Fn, w.Pos, "the balance is written with %s without knowing whether it exists", w.Fn)
		}
		c.Check(up && cr, "create-or-update", fname(h.Fn), c.P.pos(h.Fn.Pos()), "existing or missing balances can never be set")
	}
	// nobody else
	for _, k := range []string{"exec", "preexec", "postexec", "postauth", "admission", "auth"} {
		for _, h := range s.handlers(k) {
			if own[fname(h.Fn)] {
				continue
			}
			ps, _, _ := c.runHandler(h, c.wiringCfg(h))
			for _, p := range ps {
				c.Check(len(balSets(p)) == 0, "balance-owner", fname(h.Fn), p.Pos, "%s writes balances", fname(h.Fn))
			}
		}
	}
	// arithmetic
	for _, a := range []struct{ fn, lib string }{{"SafeSub", "Coins).SafeSub"}, {"SafeAdd", "Coins).Add"}} {
		f := c.fn("core/coin/v1alpha1", a.fn)
		if f == nil {
			continue
		}
		x, y := mk("param", f.Params[0].Name(), nil), mk("param", f.Params[1].Name(), nil)
		okAny := false
		for _, p := range c.run(f, Cfg{LoopK: 2}) {
			facts, ok := p.success()
			if !ok {
				if p.Outcome == "panic" {
					c.Check(false, "no-panic", fname(f), p.Pos, "coin arithmetic can panic at %s", p.Pos)
				}
				continue
			}
			// the library call
			r := p.RetDeep[0]
			lib := findTerm(r, func(t *T) bool {
				return t.Op == "call" && (strings.HasSuffix(t.S, a.lib) || strings.HasSuffix(t.S, a.lib+"#0"))
			})
			if lib == nil {
				// the result is empty: look for it among the facts
				for b := range facts {
					if l := findTerm(b, func(t *T) bool {
						return t.Op == "call" && (strings.HasSuffix(t.S, a.lib) || strings.HasSuffix(t.S, a.lib+"#0"))
					}); l != nil {
						lib = l
					}
				}
			}
			if !c.Check(lib != nil, "arithmetic-by-library", fname(f), p.Pos, "%s succeeds with %v, which the coin library did not compute", a.fn, r) {
				continue
			}
			okAny = true
			for k, col := range []*T{x, y} {
				ok, why := parsedFrom(p, lib.A[k], col)
				c.Check(ok, "arithmetic-operands", fname(f)+" "+itoa(k), p.Pos, "operand %d of %s is not its argument: %s", k, a.fn, why)
				neg := false
				for b, v := range facts {
					if !v && b.Op == "call" && strings.HasSuffix(b.S, "Coins).IsAnyNegative") && b.A[0] == lib.A[k] {
						neg = true
					}
				}
				c.Check(neg, "arithmetic-no-negative", fname(f)+" "+itoa(k), p.Pos, "%s accepts negative amounts", a.fn)
			}
			if a.fn == "SafeSub" {
				neg := mk("call", strings.TrimSuffix(lib.S, "#0")+"#1", nil, lib.A...)
				v, k := facts[neg]
				c.Check(k && !v, "no-overdraft", fname(f), p.Pos, "a subtraction can succeed although the result is negative")
			}
			// result: one coin per coin of the library's result
			vals, ok2 := seqItems(facts, r, lib)
			c.Check(ok2, "arithmetic-result", fname(f), p.Pos, "the result %v does not have one coin for each coin computed", r)
			idx, _ := elems(facts, lib)
			for _, i := range idx {
				v := vals[deepStrip(i)]
				el := mkElem(lib, i, nil)
				amt := findTerm(field(v, "Amount"), func(t *T) bool {
					return t.Op == "call" && strings.HasSuffix(t.S, "types.Int).String") && same(t.A[0], mkField(el, "Amount", nil))
				})
				c.Check(v != nil && same(field(v, "Denom"), mkField(el, "Denom", nil)) && amt != nil && deepStrip(field(v, "Amount")) == amt, "arithmetic-result", fname(f), p.Pos, "coin %v of the result is %v", i, v)
			}
		}
		c.Check(okAny, "arithmetic-possible", fname(f), c.P.pos(f.Pos()), "%s never succeeds", a.fn)
	}
}
