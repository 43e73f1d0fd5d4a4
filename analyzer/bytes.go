package main

import (
	"go/token"
	"go/types"
	"strings"
)

// bufAt is the made slice or local array that a byte slice is part of, and
// where in it the slice starts.
func (e *Engine) bufAt(t *T) (*T, *T) {
	switch t.Op {
	case "alloc":
		return t, mkInt(0)
	case "slice":
		b, o := e.bufAt(t.A[0])
		if b == nil || t.A[1].isNil() {
			return b, o
		}
		return b, sumOf(o, t.A[1])
	}
	return nil, nil
}

func sumOf(a, b *T) *T {
	if n, ok := a.intVal(); ok {
		return addInt(b, n)
	}
	if n, ok := b.intVal(); ok {
		return addInt(a, n)
	}
	return mk("bin", "+", a.Typ, a, b)
}

// linear writes a sum as coefficients of its terms; the constant belongs to
// the nil term.
func linear(t *T, k int64, into map[*T]int64) {
	t = deepStrip(t)
	if n, ok := t.intVal(); ok {
		into[nil] += k * n
		return
	}
	if t.Op == "bin" && (t.S == "+" || t.S == "-") {
		linear(t.A[0], k, into)
		if t.S == "-" {
			k = -k
		}
		linear(t.A[1], k, into)
		return
	}
	into[t] += k
}

// sameSum: two sums are equal.
func sameSum(a, b *T) bool {
	m := map[*T]int64{}
	linear(a, 1, m)
	linear(b, -1, m)
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

// notBelow: a is at least b, both sums of lengths.
func notBelow(a, b *T) bool {
	m := map[*T]int64{}
	linear(a, 1, m)
	linear(b, -1, m)
	for t, n := range m {
		if n < 0 || n > 0 && t != nil && t.Op != "len" {
			return false
		}
	}
	return true
}

// copyInto models copy(dst, src) into a slice made locally that is known to
// have room for all of src.
func (e *Engine) copyInto(st *state, dst, src *T) *T {
	buf, lo := e.bufAt(dst)
	if buf == nil {
		return nil
	}
	for x := dst; x.Op == "slice"; x = x.A[0] {
		if !x.A[3].isNil() {
			return nil
		}
	}
	room := roomOf(st, dst)
	n := e.mkLen(st, src)
	if room == nil || !notBelow(room, n) {
		return nil
	}
	v := deepStrip(e.deep(st, src))
	if v.Op == "conv" && v.S == "string" {
		v = v.A[0]
	}
	e.fill(st, buf, lo, v)
	return n
}

// fill records that a locally made buffer holds v from lo on.
func (e *Engine) fill(st *state, buf, lo, v *T) {
	var old *T
	if st.lens[buf] != nil {
		old = e.sliceSnap(st, buf, st.lens[buf], 0)
	} else {
		old = e.arraySnap(st, buf, 0)
	}
	for k := range st.mem {
		if under(k, buf) || k == buf {
			delete(st.mem, k)
		}
	}
	st.base[buf] = mk("fill", "", buf.Typ, old, lo, v)
}

// roomOf is the length of a slice of a made slice or local array.
func roomOf(st *state, t *T) *T {
	switch t.Op {
	case "alloc":
		if l := st.lens[t]; l != nil {
			return l
		}
		if pt, ok := t.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := pt.Elem().Underlying().(*types.Array); ok {
				return mkInt(a.Len())
			}
		}
	case "slice":
		hi := t.A[2]
		if hi.isNil() {
			if hi = roomOf(st, t.A[0]); hi == nil {
				return nil
			}
		}
		if t.A[1].isNil() {
			return hi
		}
		if a, ok := t.A[1].intVal(); ok {
			if b, ok := hi.intVal(); ok && a <= b {
				return mkInt(b - a)
			}
		}
		return mk("bin", "-", hi.Typ, hi, t.A[1])
	}
	return nil
}

// ---------------------------------------------------------------- math/big

func isBig(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

// bigInt models the methods of big.Int: the setters compute a value of their
// arguments' values and return their receiver, the others are functions of
// the values.
func (e *Engine) bigInt(st *state, name string, args []*T, retT types.Type) *T {
	const pre = "(*math/big.Int)."
	val := func(a *T) *T {
		if pt, ok := a.Typ.(*types.Pointer); ok && isBig(pt.Elem()) || a.Op == "alloc" && a.Typ != nil {
			a = deepStrip(e.deep(st, a))
			if a.Op == "obj" && bigZero(a) {
				return mk("call", "math/big.NewInt", nil, mkInt(0))
			}
			if a.Op == "ref" {
				return a.A[0]
			}
			return a
		}
		return deepStrip(e.deep(st, a))
	}
	if name == "math/big.NewInt" {
		a := e.newAlloc(st, "big", retT.(*types.Tuple).At(0).Type())
		st.mem[a] = mk("call", name, nil, val(args[0]))
		return a
	}
	if !strings.HasPrefix(name, pre) {
		return nil
	}
	op := name[len(pre):]
	vs := make([]*T, len(args))
	for i, a := range args {
		vs[i] = val(a)
	}
	switch op {
	case "FillBytes":
		buf, lo := e.bufAt(args[1])
		room := roomOf(st, args[1])
		if buf == nil || room == nil {
			return nil
		}
		e.fill(st, buf, lo, mk("call", name, nil, vs[0], room))
		return args[1]
	case "Set", "SetBytes", "SetInt64", "SetUint64", "Add", "Sub", "Mul", "Mod", "Div", "Quo", "Rem", "Rsh", "Lsh", "Neg", "Abs":
		if args[0].Op != "alloc" {
			return nil
		}
		v := mk("call", name, nil, vs[1:]...)
		switch op {
		case "Set":
			v = vs[1]
		case "SetInt64":
			v = mk("call", "math/big.NewInt", nil, vs[1])
		}
		e.store(st, args[0], v)
		return args[0]
	case "Cmp", "Sign", "Bytes", "BitLen", "Int64", "Uint64", "IsInt64", "IsUint64", "CmpAbs", "String":
		return mk("call", name, retT.(*types.Tuple).At(0).Type(), vs...)
	}
	return nil
}

func bigZero(o *T) bool {
	for _, a := range o.A {
		b, k := a.boolVal()
		if !(a.isNil() || k && !b) {
			return false
		}
	}
	return true
}

// putUint64 models the fixed width encoders of encoding/binary.
func (e *Engine) putUint64(st *state, name string, b, v *T) bool {
	buf, lo := e.bufAt(b)
	if buf == nil {
		return false
	}
	for k := int64(0); k < 8; k++ {
		x := v
		sh := 8 * k
		if strings.Contains(name, "bigEndian") {
			sh = 56 - sh
		}
		if sh != 0 {
			x = mk("bin", token.SHR.String(), v.Typ, v, mkInt(sh))
		}
		e.store(st, mk("iaddr", "", nil, buf, addInt(lo, k)), mkConv(x, types.Typ[types.Uint8]))
	}
	return true
}

// filled lists the pieces of a made slice that was filled by copies and by
// stores to its elements, if they fill it exactly and without overlap.
func filled(t *T) ([]piece, bool) {
	type ent struct {
		at   *T
		ps   []piece
		size *T
	}
	var es []ent
	size := t.A[0]
	any := false
	for m := t; ; {
		as := m.A[1:]
		var base *T
		if m.S == "base" {
			base = as[len(as)-1]
			as = as[:len(as)-1]
		}
		for i := 0; i+1 < len(as); i += 2 {
			es = append(es, ent{as[i], []piece{bytePiece(as[i+1])}, mkInt(1)})
		}
		if base == nil {
			break
		}
		if base.Op != "fill" {
			return nil, false
		}
		any = true
		v := base.A[2]
		es = append(es, ent{base.A[1], rawPieces(v), mk("len", "", types.Typ[types.Int], v)})
		m = base.A[0]
		if m.Op != "mslice" {
			return nil, false
		}
	}
	if !any {
		return nil, false
	}
	var out []piece
	at := mkInt(0)
	for len(es) > 0 {
		found := -1
		for i, x := range es {
			if sameSum(x.at, at) {
				if found >= 0 {
					return nil, false
				}
				found = i
			}
		}
		if found < 0 {
			return nil, false
		}
		out = append(out, es[found].ps...)
		at = sumOf(at, es[found].size)
		es = append(es[:found], es[found+1:]...)
	}
	if !sameSum(at, size) {
		return nil, false
	}
	return out, true
}
