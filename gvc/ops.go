package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// norm brings an exact integer result into the range of its type, with Go's wrap-around.
func (st *State) norm(t *Term, ty types.Type) *Term {
	b, ok := under(ty).(*types.Basic)
	if !ok {
		return t
	}
	lo, hi := intBounds(b)
	if lo == nil || t.free {
		return t
	}
	l, h := st.bounds(t)
	okLo := l != nil && l.Cmp(lo) >= 0
	okHi := h != nil && h.Cmp(hi) <= 0
	if okLo && okHi {
		return t
	}
	c := st.x.c
	n := pow2(bitsOf(ty))
	tooLo := c.Lt(t, c.Big(lo))
	tooHi := c.Lt(c.Big(hi), t)
	if !okLo && !st.feasible(tooLo) {
		st.fact(c.Not(tooLo))
		okLo = true
	}
	if !okHi && !st.feasible(tooHi) {
		st.fact(c.Not(tooHi))
		okHi = true
	}
	if okLo && okHi {
		return t
	}
	span := new(big.Int).Sub(hi, lo)
	within := func(v, w *big.Int) bool { return v != nil && w != nil && new(big.Int).Sub(v, w).CmpAbs(span) <= 0 }
	if okLo && h != nil && within(h, hi) {
		return c.Ite(tooHi, c.Sub(t, c.Big(n)), t)
	}
	if okHi && l != nil && within(l, lo) {
		return c.Ite(tooLo, c.Add(t, c.Big(n)), t)
	}
	if h != nil && l != nil && within(h, hi) && within(l, lo) {
		return c.Ite(tooHi, c.Sub(t, c.Big(n)), c.Ite(tooLo, c.Add(t, c.Big(n)), t))
	}
	return c.Add(c.Mod(c.Sub(t, c.Big(lo)), n), c.Big(lo))
}

// bits that may be set in a non-negative term; nil if unknown.
func (st *State) possBits(t *Term) *big.Int {
	switch t.op {
	case OConst:
		if t.val.Sign() >= 0 {
			return t.val
		}
		return nil
	case OIte:
		a, b := st.possBits(t.args[1]), st.possBits(t.args[2])
		if a == nil || b == nil {
			return nil
		}
		return new(big.Int).Or(a, b)
	case OLin:
		m := new(big.Int).Set(t.val)
		if t.val.Sign() < 0 {
			break
		}
		ok := true
		for i, a := range t.args {
			k := t.coef[i]
			if k.Sign() <= 0 {
				ok = false
				break
			}
			p := st.possBits(a)
			if p == nil {
				ok = false
				break
			}
			// the coefficient may be a sum of powers of two whose copies do not overlap
			for b := 0; b < k.BitLen() && ok; b++ {
				if k.Bit(b) == 0 {
					continue
				}
				q := new(big.Int).Lsh(p, uint(b))
				if new(big.Int).And(q, m).Sign() != 0 {
					ok = false
					break
				}
				m.Or(m, q)
			}
			if !ok {
				break
			}
		}
		if ok {
			return m
		}
	}
	lo, hi := st.bounds(t)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return nil
	}
	return new(big.Int).Sub(pow2(hi.BitLen()), big1)
}

// byteViews splits a non-negative term of n bytes.
func (st *State) byteViews(t *Term, n int) []*Term {
	c := st.x.c
	l := c.toLin(t)
	out := make([]*Term, n)
	ok := l.k.Sign() >= 0
	for i, a := range l.ts {
		k := l.cs[i]
		if k.Sign() <= 0 {
			ok = false
			break
		}
		lo, hi := st.bounds(a)
		if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(big255) > 0 {
			ok = false
			break
		}
		for b := 0; b < k.BitLen(); b++ {
			if k.Bit(b) == 0 {
				continue
			}
			if b%8 != 0 || b/8 >= n || out[b/8] != nil {
				ok = false
				break
			}
			out[b/8] = a
		}
		if !ok {
			break
		}
	}
	if ok {
		for j := 0; j < n; j++ {
			cb := new(big.Int).And(new(big.Int).Rsh(l.k, uint(8*j)), big255)
			if cb.Sign() != 0 {
				if out[j] != nil {
					ok = false
					break
				}
				out[j] = c.Big(cb)
			} else if out[j] == nil {
				out[j] = c.zero
			}
		}
	}
	if ok {
		return out
	}
	for j := 0; j < n; j++ {
		out[j] = c.Mod(c.Div(t, pow2(8*j)), big256)
	}
	return out
}

func (x *Exec) fromBytes(bs []*Term) *Term {
	r := x.c.zero
	for j, b := range bs {
		r = x.c.Add(r, x.c.MulK(pow2(8*j), b))
	}
	return r
}

func (x *Exec) xor8(a, b *Term) *Term {
	c := x.c
	if a == c.zero {
		return b
	}
	if b == c.zero {
		return a
	}
	if a == b {
		return c.zero
	}
	if a.op == OConst && b.op == OConst {
		return c.Big(new(big.Int).Xor(a.val, b.val))
	}
	u := c.DeclUF("xor8", 2, SInt, big0, big255)
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].op == OApp && p[0].name == "xor8" {
			if p[0].args[0] == p[1] {
				return p[0].args[1]
			}
			if p[0].args[1] == p[1] {
				return p[0].args[0]
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.App(u, a, b)
}

func (st *State) bit(t *Term, k int) *Term { return st.x.c.Mod(st.x.c.Div(t, pow2(k)), big.NewInt(2)) }

func (st *State) andConst(t *Term, m *big.Int) *Term {
	c := st.x.c
	if t.op == OConst && t.val.Sign() >= 0 {
		return c.Big(new(big.Int).And(t.val, m))
	}
	if t.op == OIte {
		return c.Ite(t.args[0], st.andConst(t.args[1], m), st.andConst(t.args[2], m))
	}
	if p := st.possBits(t); p != nil {
		m = new(big.Int).And(m, p)
		if m.Cmp(p) == 0 {
			return t
		}
	}
	// distribute over a sum with disjoint bits
	if t.op == OLin && st.possBitsExact(t) {
		r := c.Big(new(big.Int).And(t.val, m))
		for i, a := range t.args {
			tz := t.coef[i].TrailingZeroBits()
			r = c.Add(r, c.MulK(t.coef[i], st.andConst(a, new(big.Int).Rsh(m, tz))))
		}
		return r
	}
	r := c.zero
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		r = c.Add(r, c.MulK(pow2(i), c.Mod(c.Div(t, pow2(i)), pow2(j-i))))
		i = j
	}
	return r
}

func (st *State) possBitsExact(t *Term) bool {
	m := new(big.Int).Set(t.val)
	if m.Sign() < 0 {
		return false
	}
	for i, a := range t.args {
		k := t.coef[i]
		if k.Sign() <= 0 {
			return false
		}
		tz := k.TrailingZeroBits()
		if pow2(int(tz)).Cmp(k) != 0 {
			return false
		}
		p := st.possBits(a)
		if p == nil {
			return false
		}
		p = new(big.Int).Lsh(p, tz)
		if new(big.Int).And(p, m).Sign() != 0 {
			return false
		}
		m.Or(m, p)
	}
	return true
}

// bitop computes and/or/xor/andnot on n-bit values given as non-negative terms.
func (st *State) bitop(op token.Token, a, b *Term, n int) *Term {
	c := st.x.c
	if op == token.AND_NOT {
		if b.op == OConst {
			m := new(big.Int).Sub(pow2(n), big1)
			m.AndNot(m, b.val)
			return st.andConst(a, m)
		}
		return c.Sub(a, st.bitop(token.AND, a, b, n))
	}
	if a.op == OConst {
		a, b = b, a
	}
	if op == token.AND && b.op == OConst {
		return st.andConst(a, b.val)
	}
	pa, pb := st.possBits(a), st.possBits(b)
	if pa != nil && pb != nil && new(big.Int).And(pa, pb).Sign() == 0 {
		if op == token.AND {
			return c.zero
		}
		return c.Add(a, b)
	}
	if b.op == OConst {
		if op == token.OR {
			return c.Add(c.Sub(a, st.andConst(a, b.val)), b)
		}
		// xor: a + b - 2(a&b)
		if n > 8 {
			return c.Sub(c.Add(a, b), c.MulK(big.NewInt(2), st.andConst(a, b.val)))
		}
		return st.x.xor8const(st, a, b.val)
	}
	if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
		return c.Ite(a.args[0], st.bitop(op, a.args[1], b, n), st.bitop(op, a.args[2], b, n))
	}
	if b.op == OIte && b.args[1].op == OConst && b.args[2].op == OConst {
		return c.Ite(b.args[0], st.bitop(op, a, b.args[1], n), st.bitop(op, a, b.args[2], n))
	}
	if op == token.XOR {
		av, bv := st.byteViews(a, n/8), st.byteViews(b, n/8)
		var r []*Term
		for i := range av {
			r = append(r, st.x.xor8(av[i], bv[i]))
		}
		return st.x.fromBytes(r)
	}
	nb := n
	if pa != nil && pb != nil {
		nb = pa.BitLen()
		if op == token.OR && pb.BitLen() > nb || op == token.AND && pb.BitLen() < nb {
			nb = pb.BitLen()
		}
	}
	r := c.zero
	for k := 0; k < nb; k++ {
		p, q := st.bit(a, k), st.bit(b, k)
		pz, qz := c.Eq(p, c.one), c.Eq(q, c.one)
		var cd *Term
		if op == token.AND {
			cd = c.And(pz, qz)
		} else {
			cd = c.Or(pz, qz)
		}
		r = c.Add(r, c.MulK(pow2(k), c.Ite(cd, c.one, c.zero)))
	}
	return r
}

func (x *Exec) xor8const(st *State, a *Term, k *big.Int) *Term {
	return x.xor8(a, x.c.Big(k))
}

// tdiv is Go's truncated division and remainder.
func (st *State) divmod(a, b *Term) (q, r *Term) {
	c := st.x.c
	al, ah := st.bounds(a)
	if b.op == OConst && b.val.Sign() > 0 {
		if al != nil && al.Sign() >= 0 {
			return c.Div(a, b.val), c.Mod(a, b.val)
		}
		neg := c.Lt(a, c.zero)
		na := c.Neg(a)
		q = c.Ite(neg, c.Neg(c.Div(na, b.val)), c.Div(a, b.val))
		r = c.Ite(neg, c.Neg(c.Mod(na, b.val)), c.Mod(a, b.val))
		return
	}
	// variable divisor: the common case 0 <= a < 2b
	bl, _ := st.bounds(b)
	if (bl != nil && bl.Sign() > 0 || st.valid(c.Lt(c.zero, b), 1000)) && (al != nil && al.Sign() >= 0 || st.valid(c.Le(c.zero, a), 1000)) {
		lt := st.decide(c.Lt(a, b))
		if lt == c.T {
			return c.zero, a
		}
		b2 := c.MulK(big.NewInt(2), b)
		if st.decide(c.Lt(a, b2)) == c.T || st.valid(c.Lt(a, b2), 1000) {
			return c.Ite(lt, c.zero, c.one), c.Ite(lt, a, c.Sub(a, b))
		}
	}
	q = c.Fresh("quo", SInt, nil, nil)
	r = c.Fresh("rem", SInt, nil, nil)
	if bl != nil && bl.Sign() > 0 && al != nil && al.Sign() >= 0 {
		st.fact(c.Le(c.zero, r))
		st.fact(c.Lt(r, b))
		st.fact(c.Le(c.zero, q))
		if ah != nil {
			st.fact(c.Le(q, a))
		}
		st.fact(c.Le(r, a))
	}
	return
}

func (x *Exec) unop(st *State, f *Frame, in *ssa.UnOp) []*State {
	c := x.c
	v := st.val(f, in.X)
	var r Val
	switch in.Op {
	case token.MUL:
		x.nonNil(st, f, in, v)
		l := x.ptrLoc(v)
		if !x.guard(st, f, in, l, false) {
			return nil
		}
		r = st.load(l, under(in.X.Type()).(*types.Pointer).Elem())
	case token.NOT:
		r = Val{in.Type(), []*Term{c.Not(v.L[0])}}
	case token.SUB:
		r = Val{in.Type(), []*Term{st.norm(c.Neg(v.L[0]), in.Type())}}
	case token.XOR:
		// ^x = -1-x, as unsigned: max-x
		if isUnsigned(in.Type()) {
			_, hi := intBounds(under(in.Type()).(*types.Basic))
			r = Val{in.Type(), []*Term{c.Sub(c.Big(hi), v.L[0])}}
		} else {
			r = Val{in.Type(), []*Term{c.Sub(c.Int(-1), v.L[0])}}
		}
	case token.ARROW:
		r = st.fresh("recv", in.Type(), false)
		x.assume["channel receive yields an arbitrary value"] = true
	default:
		x.unsupported(st, "unary "+in.Op.String())
		return nil
	}
	r.T = in.Type()
	f.env[in] = r
	f.pc++
	return nil
}

func (x *Exec) binop(st *State, f *Frame, in ssa.Instruction, op token.Token, a, b Val, rt types.Type) Val {
	c := x.c
	one := func(t *Term) Val { return Val{rt, []*Term{t}} }
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		if k, ok := isNilSliceCmp(a, b); ok {
			e = c.Eq(k.L[0], c.zero)
		} else {
			e = st.valEq(a, b)
		}
		if op == token.NEQ {
			e = c.Not(e)
		}
		return one(e)
	}
	if isString(a.T) {
		switch op {
		case token.ADD:
			return st.concat(a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			x.assume["string ordering comparison is arbitrary"] = true
			return one(c.Fresh("strcmp", SBool, nil, nil))
		}
	}
	if isBool(a.T) {
		switch op {
		case token.AND, token.LAND:
			return one(c.And(a.L[0], b.L[0]))
		case token.OR, token.LOR:
			return one(c.Or(a.L[0], b.L[0]))
		}
	}
	if !isInt(a.T) {
		// floating point and others: arbitrary
		x.assume["non-integer arithmetic is arbitrary"] = true
		return st.fresh("float", rt, false)
	}
	p, q := a.L[0], b.L[0]
	switch op {
	case token.LSS:
		return one(c.Lt(p, q))
	case token.LEQ:
		return one(c.Le(p, q))
	case token.GTR:
		return one(c.Gt(p, q))
	case token.GEQ:
		return one(c.Ge(p, q))
	case token.ADD:
		return one(st.norm(c.Add(p, q), rt))
	case token.SUB:
		return one(st.norm(c.Sub(p, q), rt))
	case token.MUL:
		return one(st.norm(c.Mul(p, q), rt))
	case token.QUO, token.REM:
		if f != nil && q.op != OConst {
			st.prove(c.Not(c.Eq(q, c.zero)), "safety", f.obName("division-by-non-zero", in), x.posOf(in.Pos()))
		}
		d, m := st.divmod(p, q)
		if op == token.QUO {
			return one(st.norm(d, rt))
		}
		return one(m)
	case token.SHL, token.SHR:
		if n, ok := q.Int64(); ok && n >= 0 {
			if op == token.SHL {
				if n > 64 {
					return one(c.zero)
				}
				return one(st.norm(c.MulK(pow2(int(n)), p), rt))
			}
			if n > 64 {
				n = 64
			}
			return one(c.Div(p, pow2(int(n))))
		}
		if op == token.SHL || op == token.SHR {
			// enumerate small shift amounts
			lo, hi := st.bounds(q)
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(64)) <= 0 {
				var r *Term
				for k := hi.Int64(); k >= lo.Int64(); k-- {
					var t *Term
					if op == token.SHL {
						t = st.norm(c.MulK(pow2(int(k)), p), rt)
					} else {
						t = c.Div(p, pow2(int(k)))
					}
					if r == nil {
						r = t
					} else {
						r = c.Ite(c.Eq(q, c.Int(k)), t, r)
					}
				}
				return one(r)
			}
		}
		x.assume["shift by a variable amount gives an arbitrary result"] = true
		return st.fresh("shift", rt, false)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		n := bitsOf(rt)
		if isUnsigned(rt) {
			return one(st.bitop(op, p, q, n))
		}
		// signed: non-negative operands, or a non-negative constant mask
		pl, _ := st.bounds(p)
		ql, _ := st.bounds(q)
		if pl != nil && ql != nil && pl.Sign() >= 0 && ql.Sign() >= 0 {
			return one(st.bitop(op, p, q, n))
		}
		u := func(t *Term) *Term { return c.Mod(t, pow2(n)) }
		return one(st.norm(st.bitop(op, u(p), u(q), n), rt))
	}
	if st != nil {
		x.unsupported(st, "operator "+op.String())
	}
	return one(c.zero)
}

func isNilSliceCmp(a, b Val) (Val, bool) {
	if isSlice(a.T) {
		if b.L[0].op == OConst && b.L[0].val.Sign() == 0 {
			return a, true
		}
		return b, true
	}
	return a, false
}

func (st *State) concat(a, b Val) Val {
	x := st.x
	if p, ok := x.litOf(a); ok {
		if q, ok := x.litOf(b); ok {
			r := x.strLit(p + q)
			r.T = a.T
			return r
		}
	}
	c := x.c
	la := a.L[2]
	ar := &Arr{kind: 'f', sort: SInt, f: func(st *State, k *Term) *Term {
		cd := st.decide(c.Lt(k, la))
		if cd == c.T {
			return st.strAt(a, k)
		}
		if cd == c.F {
			return st.strAt(b, c.Sub(k, la))
		}
		return c.Ite(cd, st.strAt(a, k), st.strAt(b, c.Sub(k, la)))
	}}
	r := st.newStr(&StrObj{arr: ar}, c.Add(la, b.L[2]))
	r.T = a.T
	return r
}

func (x *Exec) convert(st *State, f *Frame, in *ssa.Convert) []*State {
	c := x.c
	v := st.val(f, in.X)
	from, to := in.X.Type(), in.Type()
	switch {
	case isInt(from) && isInt(to):
		f.env[in] = Val{to, []*Term{st.norm(v.L[0], to)}}
	case isString(from) && isSlice(to):
		n := v.L[2]
		ref := st.alloc()
		src := v
		el := under(to).(*types.Slice).Elem()
		if b, ok := under(el).(*types.Basic); !ok || b.Kind() != types.Uint8 {
			x.unsupported(st, "string to rune slice")
			return nil
		}
		st.setArr(ref, el, x.byteLeaf(), &Arr{kind: 'f', sort: SInt, f: func(st *State, k *Term) *Term { return st.strAt(src, k) }})
		f.env[in] = Val{to, []*Term{ref, c.zero, n, n}}
	case isSlice(from) && isString(to):
		f.env[in] = st.stringOf(v)
	case isInt(from) && isString(to):
		f.env[in] = st.fresh("runestr", to, false)
	case isString(from) && isString(to):
		f.env[in] = Val{to, v.L}
	case isPtr(from) && isUnsafe(to):
		f.env[in] = Val{to, v.L}
		st.x.uptr(v)
	case isUnsafe(from) && isPtr(to):
		return x.fromUnsafe(st, f, in, v)
	case len(x.leaves(from)) == len(x.leaves(to)):
		f.env[in] = Val{to, v.L}
	default:
		x.unsupported(st, "conversion "+from.String()+" to "+to.String())
		return nil
	}
	f.pc++
	return nil
}

func isUnsafe(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// stringOf copies a byte slice into a new string.
func (st *State) stringOf(v Val) Val {
	x := st.x
	c := x.c
	arr := st.getArr(v.L[0], types.Typ[types.Uint8], x.byteLeaf())
	off := v.L[1]
	r := st.newStr(&StrObj{arr: &Arr{kind: 'f', sort: SInt, f: func(st *State, k *Term) *Term { return st.readArr(arr, c.Add(off, k)) }}}, v.L[2])
	return r
}

// stringAlias is a string sharing the memory of a byte slice.
func (st *State) stringAlias(v Val) Val {
	x := st.x
	l := x.memLoc(v.L[0], types.Typ[types.Uint8], v.L[1])
	return st.newStr(&StrObj{mem: &l}, v.L[2])
}

type uptrInfo struct{ v Val }

// uptr remembers the typed pointer an unsafe pointer came from.
func (x *Exec) uptr(v Val) {
	if x.reg["u"+v.L[0].String()] == nil {
		x.reg["u"+v.L[0].String()] = &uptrInfo{v}
	}
}

func (x *Exec) fromUnsafe(st *State, f *Frame, in *ssa.Convert, v Val) []*State {
	c := x.c
	to := under(in.Type()).(*types.Pointer).Elem()
	o, ok := x.reg["u"+v.L[0].String()].(*uptrInfo)
	if !ok {
		x.unsupported(st, "unsafe pointer of unknown origin in "+fnKey(f.fn))
		return nil
	}
	src := under(o.v.T).(*types.Pointer).Elem()
	l := x.ptrLoc(o.v)
	if isInt(to) {
		// byte array or byte element seen as a word
		if a, ok := under(src).(*types.Array); ok {
			if b, ok := under(a.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				l = arrElem(l, c.zero)
				st.prove(c.Bool(int64(bitsOf(to)/8) <= a.Len()), "safety", f.obName("unsafe-in-bounds", in), x.posOf(in.Pos()))
				l.rein = to
				f.env[in] = x.mkPtr(l, in.Type())
				f.pc++
				return nil
			}
		}
		if b, ok := under(src).(*types.Basic); ok && b.Kind() == types.Uint8 && l.idx != nil {
			l.rein = to
			f.env[in] = x.mkPtr(l, in.Type())
			f.pc++
			return nil
		}
	}
	if types.Identical(under(src), under(to)) {
		f.env[in] = Val{in.Type(), o.v.L}
		f.pc++
		return nil
	}
	x.unsupported(st, "unsafe reinterpretation in "+fnKey(f.fn))
	return nil
}

func (st *State) loadWord(l Loc, t types.Type) Val {
	n := bitsOf(l.rein) / 8
	var bs []*Term
	for i := 0; i < n; i++ {
		b := l
		b.rein = nil
		b.idx = st.x.c.AddI(l.idx, int64(i))
		bs = append(bs, st.loadLeaf(b, st.x.byteLeaf()))
	}
	return Val{t, []*Term{st.x.fromBytes(bs)}}
}

func (st *State) storeWord(l Loc, v Val) {
	n := bitsOf(l.rein) / 8
	bs := st.byteViews(v.L[0], n)
	c := st.x.c
	b := l
	b.rein = nil
	k, _ := b.key("")
	h := st.x.heapMap(st, k, true, st.x.byteLeaf())
	st.noteWrite(k, l.ref)
	a := st.readHMArr(h, l.ref)
	idx := l.idx
	na := &Arr{kind: 'c', parent: a, lo: idx, n: c.Int(int64(n)), sort: SInt, f: func(st *State, i *Term) *Term {
		d := c.Sub(i, idx)
		if m, ok := d.Int64(); ok && m >= 0 && m < int64(n) {
			return bs[m]
		}
		r := bs[n-1]
		for j := n - 2; j >= 0; j-- {
			r = c.Ite(st.decide(c.Eq(d, c.Int(int64(j)))), bs[j], r)
		}
		return r
	}}
	st.writeHM(h, l.ref, nil, na)
}

func (x *Exec) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) []*State {
	c := x.c
	v := st.val(f, in.X)
	var ok *Term
	var r Val
	if isIface(in.AssertedType) {
		it := under(in.AssertedType).(*types.Interface)
		if n, isC := v.L[0].Int64(); isC {
			ok = c.Bool(n != 0 && types.Implements(x.tagType[n], it))
		} else if types.IsInterface(in.X.Type()) && types.Implements(in.X.Type(), it) {
			ok = c.Not(c.Eq(v.L[0], c.zero))
		} else {
			u := c.DeclUF("implements."+typeKey(in.AssertedType), 1, SBool, nil, nil)
			ok = c.And(c.Not(c.Eq(v.L[0], c.zero)), c.App(u, v.L[0]))
		}
		r = Val{in.AssertedType, v.L}
	} else {
		ok = c.Eq(v.L[0], c.Int(x.tag(in.AssertedType)))
		if st.decide(ok) != c.F {
			r = st.unbox(v.L[1], in.AssertedType)
		} else {
			r = x.zero(in.AssertedType)
		}
	}
	ok = st.decide(ok)
	if in.CommaOk {
		// the value is zero when the assertion fails: split
		a, b := st.fork(ok, "")
		if a != nil {
			a.top().env[in] = Val{in.Type(), append(append([]*Term{}, r.L...), c.T)}
			a.top().pc++
		}
		if b != nil {
			b.top().env[in] = Val{in.Type(), append(append([]*Term{}, x.zero(in.AssertedType).L...), c.F)}
			b.top().pc++
			if a != nil {
				return []*State{b}
			}
		}
		return nil
	}
	st.prove(ok, "safety", f.obName("type-assertion", in), x.posOf(in.Pos()))
	if st.dead {
		return nil
	}
	r.T = in.Type()
	f.env[in] = r
	f.pc++
	return nil
}

// ---- maps: heap components keyed by map type; index is the key's code

func (x *Exec) mapKey(st *State, k Val) *Term {
	if isString(k.T) {
		return st.strID(k)
	}
	if isIface(k.T) {
		return x.c.App(x.c.DeclUF("ifacekey", 2, SInt, nil, nil), k.L...)
	}
	return k.L[0]
}

func (x *Exec) mapHM(st *State, t types.Type, what string, lf Leaf) *HM {
	return x.heapMap(st, "map:"+typeKey(t)+"|"+what+lf.Path, true, lf)
}

var domLeaf = Leaf{"", SBool, nil, nil, 'b', types.Typ[types.Bool]}

func (x *Exec) mapDom(st *State, m Val) *Arr {
	return st.readHMArr(x.mapHM(st, m.T, "dom", domLeaf), m.L[0])
}

// mapChoice is an undecided question whether k is one of the constant keys stored in m, for maps whose values are
// themselves looked up (strings, functions, pointers).
func (x *Exec) mapChoice(st *State, m, k Val) *Term {
	mt := under(m.T).(*types.Map)
	switch t := under(mt.Elem()).(type) {
	case *types.Signature, *types.Interface, *types.Pointer, *types.Slice, *types.Struct:
	case *types.Basic:
		if t.Kind() != types.String {
			return nil
		}
	default:
		return nil
	}
	kk := x.mapKey(st, k)
	if kk.op == OConst && !isString(mt.Key()) {
		return nil
	}
	n := 0
	for a := x.mapDom(st, m); a != nil && a.kind == 's' && n < 16; a = a.parent {
		if a.idx.op != OConst || a.idx == kk {
			continue
		}
		n++
		cd := x.c.Eq(kk, a.idx)
		if o, ok := x.lookup(a.idx).(*StrObj); ok && o.isLit && isString(mt.Key()) {
			if _, lit := x.litOf(k); lit {
				continue
			}
			cd = st.strEq(k, x.strLit(o.lit))
			st.fact(x.c.Imp(cd, x.c.Eq(kk, a.idx)))
			st.fact(x.c.Imp(x.c.Eq(kk, a.idx), cd))
		}
		if d := st.decide(cd); d != x.c.T && d != x.c.F {
			return cd
		} else if d == x.c.T {
			return nil
		}
	}
	return nil
}

func (x *Exec) mapGet(st *State, m, k Val) (Val, *Term) {
	c := x.c
	mt := under(m.T).(*types.Map)
	kk := x.mapKey(st, k)
	in := st.readArr(x.mapDom(st, m), kk)
	in = st.decide(c.And(c.Not(c.Eq(m.L[0], c.zero)), in))
	z := x.zero(mt.Elem())
	v := Val{T: mt.Elem()}
	for i, lf := range x.leaves(mt.Elem()) {
		t := st.readArr(st.readHMArr(x.mapHM(st, m.T, "val", lf), m.L[0]), kk)
		v.L = append(v.L, c.Ite(in, t, z.L[i]))
	}
	return v, in
}

var cardLeaf = Leaf{"", SInt, big0, maxLen, 'i', types.Typ[types.Int]}

func (x *Exec) mapCard(st *State, t types.Type) *HM {
	return x.heapMap(st, "map:"+typeKey(t)+"|len", false, cardLeaf)
}

// mapCount keeps the number of entries when the key kk is added (d=1) or removed (d=-1).
func (x *Exec) mapCount(st *State, m Val, kk *Term, d int64) {
	c := x.c
	in := st.readArr(x.mapDom(st, m), kk)
	h := x.mapCard(st, m.T)
	n := st.readHM(h, m.L[0])
	st.fact(c.Imp(c.And(in, c.Not(c.Eq(m.L[0], c.zero))), c.Le(c.one, n)))
	ch := in
	if d > 0 {
		ch = c.Not(in)
	}
	st.noteWrite(h.key, m.L[0])
	st.writeHM(h, m.L[0], c.Ite(ch, c.Add(n, c.Int(d)), n), nil)
}

func (x *Exec) mapSet(st *State, m, k, v Val) {
	mt := under(m.T).(*types.Map)
	kk := x.mapKey(st, k)
	wr := func(what string, lf Leaf, t *Term) {
		h := x.mapHM(st, m.T, what, lf)
		st.noteWrite(h.key, m.L[0])
		a := st.readHMArr(h, m.L[0])
		st.writeHM(h, m.L[0], nil, &Arr{kind: 's', parent: a, idx: kk, val: t, sort: lf.Sort})
	}
	x.mapCount(st, m, kk, 1)
	wr("dom", domLeaf, x.c.T)
	for i, lf := range x.leaves(mt.Elem()) {
		wr("val", lf, v.L[i])
	}
}

func (x *Exec) mapDelete(st *State, m, k Val) {
	kk := x.mapKey(st, k)
	x.mapCount(st, m, kk, -1)
	h := x.mapHM(st, m.T, "dom", domLeaf)
	a := st.readHMArr(h, m.L[0])
	st.noteWrite(h.key, m.L[0])
	// deleting from a nil map is a no-op: reads of nil maps ignore the domain
	st.writeHM(h, m.L[0], nil, &Arr{kind: 's', parent: a, idx: kk, val: x.c.F, sort: SBool})
}
