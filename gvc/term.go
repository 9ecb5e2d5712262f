package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms: hash-consed first-order terms over Int and Bool. Integer sums are kept in linear normal form.

type Op uint8

const (
	OConst Op = iota
	OTrue
	OFalse
	OVar
	OApp
	OLin
	OMul
	ODiv // SMT div by positive constant args[1]
	OMod // SMT mod by positive constant args[1]
	OIte
	OEq // args[0] = 0 in linear form (ints) or bool iff (2 args)
	OLe // args[0] <= 0
	ONot
	OAnd
	OOr
	OForall
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
)

type Term struct {
	op     Op
	sort   Sort
	id     int
	name   string
	val    *big.Int
	coef   []*big.Int
	args   []*Term
	lo, hi *big.Int
	bvars  []*Term // OForall
	free   bool    // contains a bound variable
	size   int
}

type UF struct {
	name   string
	arity  int
	sort   Sort
	lo, hi *big.Int
}

type Ctx struct {
	tab   map[string]*Term
	n     int
	ufs   map[string]*UF
	fresh map[string]int
	T, F  *Term
	zero  *Term
	one   *Term
}

var (
	big0   = big.NewInt(0)
	big1   = big.NewInt(1)
	bigm1  = big.NewInt(-1)
	big255 = big.NewInt(255)
	big256 = big.NewInt(256)
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, ufs: map[string]*UF{}, fresh: map[string]int{}}
	c.T = c.mk(&Term{op: OTrue, sort: SBool}, "T")
	c.F = c.mk(&Term{op: OFalse, sort: SBool}, "F")
	c.zero = c.Int(0)
	c.one = c.Int(1)
	return c
}

func (c *Ctx) mk(t *Term, key string) *Term {
	if x, ok := c.tab[key]; ok {
		return x
	}
	c.n++
	t.id = c.n
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if a.free && t.op != OForall {
			t.free = true
		}
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	c.tab[key] = t
	return t
}

func keyOf(op Op, name string, args []*Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s", op, name)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	return b.String()
}

func (c *Ctx) Int(n int64) *Term { return c.Big(big.NewInt(n)) }
func (c *Ctx) Big(n *big.Int) *Term {
	k := "#" + n.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	v := new(big.Int).Set(n)
	return c.mk(&Term{op: OConst, sort: SInt, val: v, lo: v, hi: v}, k)
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *Ctx) Var(name string, s Sort, lo, hi *big.Int) *Term {
	return c.mk(&Term{op: OVar, sort: s, name: name, lo: lo, hi: hi}, "v"+name)
}

func (c *Ctx) FreshName(base string) string {
	c.fresh[base]++
	return fmt.Sprintf("%s!%d", base, c.fresh[base])
}

func (c *Ctx) Fresh(base string, s Sort, lo, hi *big.Int) *Term {
	return c.Var(c.FreshName(base), s, lo, hi)
}

// BVar makes a bound variable.
func (c *Ctx) BVar(base string) *Term {
	t := c.Fresh(base+"?", SInt, nil, nil)
	t.free = true
	return t
}

func (c *Ctx) DeclUF(name string, arity int, s Sort, lo, hi *big.Int) *UF {
	if u, ok := c.ufs[name]; ok {
		return u
	}
	u := &UF{name, arity, s, lo, hi}
	c.ufs[name] = u
	return u
}

func (c *Ctx) App(u *UF, args ...*Term) *Term {
	if len(args) != u.arity {
		panic(fmt.Sprintf("arity of %s: %d", u.name, len(args)))
	}
	return c.mk(&Term{op: OApp, sort: u.sort, name: u.name, args: args, lo: u.lo, hi: u.hi}, keyOf(OApp, u.name, args))
}

// ---- linear forms

type lin struct {
	k  *big.Int
	cs []*big.Int
	ts []*Term
}

func (c *Ctx) toLin(t *Term) lin {
	switch t.op {
	case OConst:
		return lin{k: t.val}
	case OLin:
		return lin{k: t.val, cs: t.coef, ts: t.args}
	}
	return lin{k: big0, cs: []*big.Int{big1}, ts: []*Term{t}}
}

func addBound(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func (c *Ctx) fromLin(l lin) *Term {
	if len(l.ts) == 0 {
		return c.Big(l.k)
	}
	if len(l.ts) == 1 && l.k.Sign() == 0 && l.cs[0].Cmp(big1) == 0 {
		return l.ts[0]
	}
	var b strings.Builder
	b.WriteString("L")
	b.WriteString(l.k.String())
	for i := range l.ts {
		fmt.Fprintf(&b, ",%s*%d", l.cs[i].String(), l.ts[i].id)
	}
	key := b.String()
	if t, ok := c.tab[key]; ok {
		return t
	}
	lo, hi := l.k, l.k
	for i := range l.ts {
		a, z := scaleB(l.cs[i], l.ts[i].lo, l.ts[i].hi)
		lo = addBound(lo, a)
		hi = addBound(hi, z)
	}
	return c.mk(&Term{op: OLin, sort: SInt, val: l.k, coef: l.cs, args: l.ts, lo: lo, hi: hi}, key)
}

func scaleB(k, lo, hi *big.Int) (*big.Int, *big.Int) {
	m := func(x *big.Int) *big.Int {
		if x == nil {
			return nil
		}
		return new(big.Int).Mul(k, x)
	}
	if k.Sign() >= 0 {
		return m(lo), m(hi)
	}
	return m(hi), m(lo)
}

func (c *Ctx) addScaled(a lin, k *big.Int, b lin) lin {
	r := lin{k: new(big.Int).Add(a.k, new(big.Int).Mul(k, b.k))}
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || (i < len(a.ts) && a.ts[i].id < b.ts[j].id):
			r.ts = append(r.ts, a.ts[i])
			r.cs = append(r.cs, a.cs[i])
			i++
		case i >= len(a.ts) || b.ts[j].id < a.ts[i].id:
			r.ts = append(r.ts, b.ts[j])
			r.cs = append(r.cs, new(big.Int).Mul(k, b.cs[j]))
			j++
		default:
			s := new(big.Int).Add(a.cs[i], new(big.Int).Mul(k, b.cs[j]))
			if s.Sign() != 0 {
				r.ts = append(r.ts, a.ts[i])
				r.cs = append(r.cs, s)
			}
			i++
			j++
		}
	}
	return r
}

func (c *Ctx) Add(a, b *Term) *Term { return c.fromLin(c.addScaled(c.toLin(a), big1, c.toLin(b))) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.fromLin(c.addScaled(c.toLin(a), bigm1, c.toLin(b))) }
func (c *Ctx) AddI(a *Term, n int64) *Term {
	return c.Add(a, c.Int(n))
}
func (c *Ctx) Neg(a *Term) *Term { return c.MulK(bigm1, a) }
func (c *Ctx) MulK(k *big.Int, a *Term) *Term {
	if k.Sign() == 0 {
		return c.zero
	}
	return c.fromLin(c.addScaled(lin{k: big0}, k, c.toLin(a)))
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst {
		return c.MulK(a.val, b)
	}
	if b.op == OConst {
		return c.MulK(b.val, a)
	}
	if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
		return c.Ite(a.args[0], c.Mul(a.args[1], b), c.Mul(a.args[2], b))
	}
	if b.op == OIte && b.args[1].op == OConst && b.args[2].op == OConst {
		return c.Ite(b.args[0], c.Mul(b.args[1], a), c.Mul(b.args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	var lo, hi *big.Int
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
	} else if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		lo = new(big.Int).Mul(a.lo, b.lo)
	}
	return c.mk(&Term{op: OMul, sort: SInt, args: []*Term{a, b}, lo: lo, hi: hi}, keyOf(OMul, "", []*Term{a, b}))
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int)) // Euclidean, b>0 -> floor
	_ = m
	return q
}

// Div is SMT (floor for positive divisor) division by a positive constant.
func (c *Ctx) Div(a *Term, k *big.Int) *Term {
	if k.Cmp(big1) == 0 {
		return a
	}
	if a.op == OConst {
		return c.Big(floorDiv(a.val, k))
	}
	if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(k) < 0 {
		return c.zero
	}
	if a.op == ODiv {
		return c.Div(a.args[0], new(big.Int).Mul(k, a.args[1].val))
	}
	if a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return c.Ite(a.args[0], c.Div(a.args[1], k), c.Div(a.args[2], k))
	}
	// split multiples of k out
	l := c.toLin(a)
	out, rest := lin{k: floorDiv(l.k, k)}, lin{k: new(big.Int).Mod(l.k, k)}
	for i := range l.ts {
		if new(big.Int).Mod(l.cs[i], k).Sign() == 0 {
			out.ts = append(out.ts, l.ts[i])
			out.cs = append(out.cs, new(big.Int).Div(l.cs[i], k))
		} else {
			rest.ts = append(rest.ts, l.ts[i])
			rest.cs = append(rest.cs, l.cs[i])
		}
	}
	if len(out.ts) > 0 || out.k.Sign() != 0 {
		return c.Add(c.fromLin(out), c.Div(c.fromLin(rest), k))
	}
	var lo, hi *big.Int
	if a.lo != nil {
		lo = floorDiv(a.lo, k)
	}
	if a.hi != nil {
		hi = floorDiv(a.hi, k)
	}
	kk := c.Big(k)
	return c.mk(&Term{op: ODiv, sort: SInt, args: []*Term{a, kk}, lo: lo, hi: hi}, keyOf(ODiv, "", []*Term{a, kk}))
}

func (c *Ctx) Mod(a *Term, k *big.Int) *Term {
	if k.Cmp(big1) == 0 {
		return c.zero
	}
	if a.op == OConst {
		return c.Big(new(big.Int).Mod(a.val, k))
	}
	if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(k) < 0 {
		return a
	}
	if a.op == OMod && new(big.Int).Mod(a.args[1].val, k).Sign() == 0 {
		return c.Mod(a.args[0], k)
	}
	if a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return c.Ite(a.args[0], c.Mod(a.args[1], k), c.Mod(a.args[2], k))
	}
	l := c.toLin(a)
	rest := lin{k: new(big.Int).Mod(l.k, k)}
	changed := rest.k.Cmp(l.k) != 0
	for i := range l.ts {
		m := new(big.Int).Mod(l.cs[i], k)
		if m.Sign() == 0 {
			changed = true
			continue
		}
		// keep small negative coefs as they are
		if l.cs[i].Cmp(m) != 0 && new(big.Int).Abs(l.cs[i]).Cmp(k) >= 0 {
			changed = true
			rest.ts = append(rest.ts, l.ts[i])
			rest.cs = append(rest.cs, m)
			continue
		}
		rest.ts = append(rest.ts, l.ts[i])
		rest.cs = append(rest.cs, l.cs[i])
	}
	if changed {
		return c.Mod(c.fromLin(rest), k)
	}
	kk := c.Big(k)
	return c.mk(&Term{op: OMod, sort: SInt, args: []*Term{a, kk}, lo: big0, hi: new(big.Int).Sub(k, big1)}, keyOf(OMod, "", []*Term{a, kk}))
}

func (c *Ctx) Ite(cd, a, b *Term) *Term {
	if cd == c.T {
		return a
	}
	if cd == c.F {
		return b
	}
	if a == b {
		return a
	}
	if cd.op == ONot {
		cd, a, b = cd.args[0], b, a
	}
	if a.sort == SBool {
		if a == c.T {
			return c.Or(cd, b)
		}
		if a == c.F {
			return c.And(c.Not(cd), b)
		}
		if b == c.T {
			return c.Or(c.Not(cd), a)
		}
		if b == c.F {
			return c.And(cd, a)
		}
		return c.And(c.Or(c.Not(cd), a), c.Or(cd, b))
	}
	if a.op == OIte && a.args[0] == cd {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cd {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	var lo, hi *big.Int
	if a.lo != nil && b.lo != nil {
		lo = a.lo
		if b.lo.Cmp(lo) < 0 {
			lo = b.lo
		}
	}
	if a.hi != nil && b.hi != nil {
		hi = a.hi
		if b.hi.Cmp(hi) > 0 {
			hi = b.hi
		}
	}
	args := []*Term{cd, a, b}
	return c.mk(&Term{op: OIte, sort: SInt, args: args, lo: lo, hi: hi}, keyOf(OIte, "", args))
}

// Le0: t <= 0
func (c *Ctx) le0(t *Term) *Term {
	if t.hi != nil && t.hi.Sign() <= 0 {
		return c.T
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return c.F
	}
	l := c.toLin(t)
	if len(l.ts) == 1 && l.ts[0].op == OIte {
		it := l.ts[0]
		if it.args[1].op == OConst || it.args[2].op == OConst {
			f := func(x *Term) *Term {
				return c.le0(c.Add(c.MulK(l.cs[0], x), c.Big(l.k)))
			}
			return c.Ite(it.args[0], f(it.args[1]), f(it.args[2]))
		}
	}
	if len(l.ts) == 0 {
		return c.Bool(l.k.Sign() <= 0)
	}
	g := new(big.Int)
	for i, x := range l.cs {
		if i == 0 {
			g.Abs(x)
		} else {
			g.GCD(nil, nil, g, new(big.Int).Abs(x))
		}
	}
	if g.Cmp(big1) != 0 {
		// sum <= -k  => sum/g <= floor(-k/g)
		r := lin{ts: l.ts}
		for _, x := range l.cs {
			r.cs = append(r.cs, new(big.Int).Quo(x, g))
		}
		r.k = new(big.Int).Neg(floorDiv(new(big.Int).Neg(l.k), g))
		t = c.fromLin(r)
		return c.le0(t)
	}
	return c.mk(&Term{op: OLe, sort: SBool, args: []*Term{t}}, keyOf(OLe, "", []*Term{t}))
}

func (c *Ctx) Le(a, b *Term) *Term { return c.le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.le0(c.AddI(c.Sub(a, b), 1)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.sort == SBool {
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.Not(b)
		}
		if b == c.F {
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		if c.Not(a) == b {
			return c.F
		}
		return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}}, keyOf(OEq, "", []*Term{a, b}))
	}
	return c.eq0(c.Sub(a, b))
}

func (c *Ctx) eq0(t *Term) *Term {
	if t.op == OConst {
		return c.Bool(t.val.Sign() == 0)
	}
	if (t.lo != nil && t.lo.Sign() > 0) || (t.hi != nil && t.hi.Sign() < 0) {
		return c.F
	}
	l := c.toLin(t)
	if len(l.ts) == 1 && l.ts[0].op == OIte {
		it := l.ts[0]
		if it.args[1].op == OConst || it.args[2].op == OConst {
			f := func(x *Term) *Term { return c.eq0(c.Add(c.MulK(l.cs[0], x), c.Big(l.k))) }
			return c.Ite(it.args[0], f(it.args[1]), f(it.args[2]))
		}
	}
	g := new(big.Int)
	for i, x := range l.cs {
		if i == 0 {
			g.Abs(x)
		} else {
			g.GCD(nil, nil, g, new(big.Int).Abs(x))
		}
	}
	if new(big.Int).Mod(l.k, g).Sign() != 0 {
		return c.F
	}
	if l.cs[0].Sign() < 0 {
		g = new(big.Int).Neg(g)
	}
	if g.Cmp(big1) != 0 {
		r := lin{ts: l.ts, k: new(big.Int).Quo(l.k, g)}
		for _, x := range l.cs {
			r.cs = append(r.cs, new(big.Int).Quo(x, g))
		}
		t = c.fromLin(r)
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{t}}, keyOf(OEq, "", []*Term{t}))
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.F
	case OFalse:
		return c.T
	case ONot:
		return a.args[0]
	case OLe: // !(t<=0) == t>=1 == 1-t<=0
		return c.le0(c.AddI(c.Neg(a.args[0]), 1))
	}
	return c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}}, keyOf(ONot, "", []*Term{a}))
}

func (c *Ctx) nary(op Op, unit, absorb *Term, as []*Term) *Term {
	seen := map[int]bool{}
	var out []*Term
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == absorb {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if seen[c.Not(a).id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return absorb
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, sort: SBool, args: out}, keyOf(op, "", out))
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OAnd, c.T, c.F, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary(OOr, c.F, c.T, as) }
func (c *Ctx) Imp(a, b *Term) *Term  { return c.Or(c.Not(a), b) }

func (c *Ctx) Forall(vs []*Term, body *Term) *Term {
	if body == c.T || body == c.F {
		return body
	}
	if !body.free {
		return body
	}
	if len(vs) == 1 {
		// rename the variable so that an array read at k+e becomes a read at the variable: solvers instantiate
		// such formulas from the reads in the goal
		if rest := c.shiftOf(body, vs[0], map[int]bool{}); rest != nil && rest != c.zero {
			t := c.BVar("t")
			body = c.Subst(body, map[int]*Term{vs[0].id: c.Sub(t, rest)}, map[int]*Term{})
			vs = []*Term{t}
			if body == c.T || body == c.F || !body.free {
				return body
			}
		}
	}
	all := append([]*Term{body}, vs...)
	t := &Term{op: OForall, sort: SBool, args: []*Term{body}, bvars: vs}
	// free unless all bound variables are bound here
	bound := map[int]bool{}
	for _, v := range vs {
		bound[v.id] = true
	}
	memo := map[int]bool{}
	t.free = c.hasOther(body, bound, memo)
	return c.mk(t, keyOf(OForall, "", all))
}

// shiftOf finds e such that body reads an array at v+e.
func (c *Ctx) shiftOf(t, v *Term, seen map[int]bool) *Term {
	if !t.free || seen[t.id] {
		return nil
	}
	seen[t.id] = true
	if t.op == OApp && len(t.args) > 0 {
		l := c.toLin(t.args[len(t.args)-1])
		for i, a := range l.ts {
			if a == v && l.cs[i].Cmp(big1) == 0 {
				r := c.Sub(t.args[len(t.args)-1], v)
				if !c.mentions(r, v) {
					return r
				}
			}
		}
	}
	for _, a := range t.args {
		if r := c.shiftOf(a, v, seen); r != nil {
			return r
		}
	}
	return nil
}

func (c *Ctx) mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	if !t.free {
		return false
	}
	for _, a := range t.args {
		if c.mentions(a, v) {
			return true
		}
	}
	return false
}

func (c *Ctx) hasOther(t *Term, bound map[int]bool, memo map[int]bool) bool {
	if !t.free {
		return false
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	memo[t.id] = false
	if t.op == OVar {
		memo[t.id] = !bound[t.id]
		return memo[t.id]
	}
	if t.op == OForall {
		b2 := map[int]bool{}
		for k := range bound {
			b2[k] = true
		}
		for _, v := range t.bvars {
			b2[v.id] = true
		}
		r := c.hasOther(t.args[0], b2, map[int]bool{})
		memo[t.id] = r
		return r
	}
	for _, a := range t.args {
		if c.hasOther(a, bound, memo) {
			memo[t.id] = true
			return true
		}
	}
	return false
}

// rebuild applies f to args and simplifies.
func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OApp:
		return c.App(c.ufs[t.name], args...)
	case OLin:
		r := lin{k: t.val}
		for i, a := range args {
			r = c.addScaled(r, t.coef[i], c.toLin(a))
		}
		return c.fromLin(r)
	case OMul:
		return c.Mul(args[0], args[1])
	case ODiv:
		return c.Div(args[0], args[1].val)
	case OMod:
		return c.Mod(args[0], args[1].val)
	case OIte:
		return c.Ite(args[0], args[1], args[2])
	case OEq:
		if len(args) == 1 {
			return c.eq0(args[0])
		}
		return c.Eq(args[0], args[1])
	case OLe:
		return c.le0(args[0])
	case ONot:
		return c.Not(args[0])
	case OAnd:
		return c.And(args...)
	case OOr:
		return c.Or(args...)
	case OForall:
		return c.Forall(t.bvars, args[0])
	}
	return t
}

// Subst replaces terms.
func (c *Ctx) Subst(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = c.Subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = c.rebuild(t, args)
	}
	memo[t.id] = r
	return r
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) Int64() (int64, bool) {
	if t.op == OConst && t.val.IsInt64() {
		return t.val.Int64(), true
	}
	return 0, false
}

// ---- printing

func quoteName(s string) string {
	ok := true
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '!' || r == '.') {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(s, "|", "_") + "|"
}

func bigSMT(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

// smt prints t one level deep; sub gives the text of arguments.
func (t *Term) smt(sub func(*Term) string) string {
	j := func(op string, as []*Term) string {
		var b strings.Builder
		b.WriteString("(" + op)
		for _, a := range as {
			b.WriteString(" ")
			b.WriteString(sub(a))
		}
		b.WriteString(")")
		return b.String()
	}
	switch t.op {
	case OConst:
		return bigSMT(t.val)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return quoteName(t.name)
	case OApp:
		if len(t.args) == 0 {
			return quoteName(t.name)
		}
		return j(quoteName(t.name), t.args)
	case OLin:
		var parts []string
		for i, a := range t.args {
			if t.coef[i].Cmp(big1) == 0 {
				parts = append(parts, sub(a))
			} else {
				parts = append(parts, "(* "+bigSMT(t.coef[i])+" "+sub(a)+")")
			}
		}
		if t.val.Sign() != 0 {
			parts = append(parts, bigSMT(t.val))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OMul:
		return j("*", t.args)
	case ODiv:
		return j("div", t.args)
	case OMod:
		return j("mod", t.args)
	case OIte:
		return j("ite", t.args)
	case OEq:
		if len(t.args) == 1 {
			return "(= " + sub(t.args[0]) + " 0)"
		}
		return j("=", t.args)
	case OLe:
		return "(<= " + sub(t.args[0]) + " 0)"
	case ONot:
		return j("not", t.args)
	case OAnd:
		return j("and", t.args)
	case OOr:
		return j("or", t.args)
	case OForall:
		var b strings.Builder
		b.WriteString("(forall (")
		for _, v := range t.bvars {
			b.WriteString("(" + quoteName(v.name) + " Int)")
		}
		b.WriteString(") " + sub(t.args[0]) + ")")
		return b.String()
	}
	return "?"
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.size > 400 {
		return fmt.Sprintf("<big term %d size %d>", t.id, t.size)
	}
	return t.smt(func(a *Term) string { return a.String() })
}
