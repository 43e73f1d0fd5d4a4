package main

import "strings"

func init() {
	register("C33", "The admission and post-authentication handlers of all modules are enumerated: one admission handler accepts a transaction only under the fact that the checked subtraction of the transaction's fee from the stored balance of its payer succeeded; one post-authentication handler delivers, on each of its successful paths, exactly one transfer of exactly that fee from that payer to the fee collector; no other handler moves coins. Payer and fee of a decoded transaction are traced to the signed auth info.", c33)
}

const feeCollector = "fee_collector"

// txView lists the expressions that denote what the method of the transaction
// returns: by interface call, or on the decoder's own type.
func (c *Ctx) txView(tx *T, name string) []*T {
	out := []*T{mk("call", "(runtime/authentication.Tx)."+name, nil, tx)}
	if w := c.wrapper(); w != nil {
		if t := c.evalOn(nil, w, tx, name); t != nil {
			out = append(out, deepStrip(t))
		}
	}
	return out
}

// emptyAny: one of the expressions is known to denote an empty list.
func emptyAny(facts map[*T]bool, ts []*T) bool {
	for _, t := range ts {
		if v, k := decideIn(facts, mk("eq", "", nil, mk("len", "", nil, deepStrip(t)), mkInt(0))); k && v {
			return true
		}
	}
	return false
}

func sameAny(t *T, of []*T) bool {
	for _, x := range of {
		if t != nil && same(t, x) {
			return true
		}
	}
	return false
}

func c33(c *Ctx) {
	s := c.system()
	const balT, sendT = "bank/v1alpha1.Balance", "bank/v1alpha1.MsgSendCoins"
	pure := Cfg{Pure: func(n string) bool { return n == fnSafeAdd || n == fnSafeSub }}
	// the fee is covered
	h, why := c.acceptedBy(s.handlers("auth"), pure, func(h *Handler, p *Path, facts map[*T]bool, req *T) (bool, string) {
		payer, fee := c.txView(req, "Payer"), c.txView(req, "Fee")
		why := "the fee is not compared with the payer's balance"
		for a, v := range facts {
			if !v || a.Op != "eq" || !a.A[1].isNil() || a.A[0].Op != "call" || a.A[0].S != fnSafeSub+"#1" || len(a.A[0].A) != 2 {
				continue
			}
			bal, f := a.A[0].A[0], a.A[0].A[1]
			if !sameAny(f, fee) {
				why = "the amount taken from the balance is " + f.String() + ", not the fee"
				continue
			}
			why = "the balance compared with the fee is " + bal.String() + ", not the payer's stored balance"
			for _, e := range fetched(p, facts, balT) {
				if sameAny(idString(e.Deep[0]), payer) && same(bal, mkField(evOut(e, 1), "Balance", nil)) {
					return true, ""
				}
			}
		}
		return false, why
	})
	c.Check(h != nil, "fee-covered", "transaction admission", "-", "no admission handler requires the payer's balance to cover the fee: %s", why)
	if h != nil {
		ps, _, _ := c.runHandler(h, pure)
		okAny := false
		for _, p := range ps {
			if p.Outcome == "panic" {
				c.Check(false, "no-panic", fname(h.Fn), p.Pos, "the fee check can panic at %s", p.Pos)
				continue
			}
			if _, ok := p.success(); ok {
				okAny = true
				continue
			}
			c.Check(p.feeStepFailed(), "refused-with-reason", fname(h.Fn), p.Pos, "the fee check refuses a transaction although nothing failed")
		}
		c.Check(okAny, "admission-possible", fname(h.Fn), c.P.pos(h.Fn.Pos()), "the fee check refuses every transaction")
	}
	// the fee is moved
	sends := func(p *Path) []*Event {
		var out []*Event
		for _, e := range p.calls(fnClientDlv) {
			if mt, _ := delivered(e); strings.HasSuffix(mt, sendT) {
				out = append(out, e)
			}
		}
		return out
	}
	n := 0
	for _, h := range s.handlers("postauth") {
		ps, req, _ := c.runHandler(h, pure)
		moves := false
		for _, p := range ps {
			moves = moves || len(sends(p)) > 0
		}
		if !moves {
			continue
		}
		n++
		tx := field(req, "Tx")
		payer, fee := c.txView(tx, "Payer"), c.txView(tx, "Fee")
		okAny := false
		for _, p := range ps {
			es := sends(p)
			for _, e := range es {
				_, d := delivered(e)
				to, k := field(d, "ToAddress").strVal()
				c.Check(sameAny(field(d, "FromAddress"), payer), "fee-from-payer", fname(h.Fn), e.Pos, "the fee is taken from %v, not from the payer", field(d, "FromAddress"))
				c.Check(k && to == feeCollector, "fee-to-collector", fname(h.Fn), e.Pos, "the fee is sent to %v", field(d, "ToAddress"))
				c.Check(sameAny(field(d, "Amount"), fee), "fee-amount", fname(h.Fn), e.Pos, "the amount moved is %v, not the fee", field(d, "Amount"))
			}
			if p.Outcome == "panic" {
				c.Check(false, "no-panic", fname(h.Fn), p.Pos, "moving the fee can panic at %s", p.Pos)
				continue
			}
			facts, ok := p.success()
			if !ok {
				c.Check(p.feeStepFailed(), "moved-with-reason", fname(h.Fn), p.Pos, "moving the fee fails although nothing failed")
				continue
			}
			if len(es) == 0 && emptyAny(facts, fee) {
				continue
			}
			okAny = true
			c.Check(len(es) == 1, "fee-moved-once", fname(h.Fn), p.Pos, "the fee is moved %d times", len(es))
			for _, e := range es {
				c.Check(e.okIn(facts), "fee-failure", fname(h.Fn), e.Pos, "the step succeeds although moving the fee may have failed")
			}
		}
		c.Check(okAny, "fee-moved-once", fname(h.Fn), c.P.pos(h.Fn.Pos()), "the fee can never be moved")
	}
	c.Check(n == 1, "fee-moved-once", "post-authentication", "-", "%d post-authentication steps move coins", n)
	// nothing else moves coins
	for _, k := range []string{"exec", "preexec", "postexec", "admission", "auth"} {
		for _, h := range s.handlers(k) {
			ps, _, _ := c.runHandler(h, c.wiringCfg(h))
			for _, p := range ps {
				c.Check(len(sends(p)) == 0, "coins-move-only-when-asked", fname(h.Fn), p.Pos, "%s moves coins", fname(h.Fn))
			}
		}
	}
	// payer and fee of a decoded transaction
	mine := func(rule string) bool { return strings.HasPrefix(rule, "payer-") || strings.HasPrefix(rule, "fee-") }
	for _, b := range []bool{true, false} {
		c.decodeResult(func(rule, pos, f string, a ...interface{}) {
			if mine(rule) {
				c.Check(false, rule, "Decode", pos, f, a...)
			}
		}, func(rule string) {
			if mine(rule) {
				c.Check(true, rule, "Decode", "", "")
			}
		}, b)
	}
}

// feeStepFailed: a step or the checked subtraction failed on the path.
func (p *Path) feeStepFailed() bool {
	if p.failedStep() != nil {
		return true
	}
	for a, v := range p.facts {
		if !v && a.Op == "eq" && a.A[1].isNil() && a.A[0].Op == "call" && a.A[0].S == fnSafeSub+"#1" {
			return true
		}
	}
	// the error of the last step is handed on without a test of its own
	if r := p.errRet(); r != nil {
		r = deepStrip(r)
		if p.eventOf(r) != nil || r.Op == "call" && r.S == fnSafeSub+"#1" {
			return true
		}
	}
	return false
}
