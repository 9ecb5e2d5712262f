package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Seq is a finite sequence: elements arr[off..off+n).
type Seq struct {
	arr    *Arr
	off, n *Term
}

// SVal is a specification value.
type SVal struct {
	k byte // 'v' value, 's' sequence, 'n' untyped nil, 'g' ghost map
	v Val
	s *Seq
	m string // ghost map key
}

type Env struct {
	vars map[string]SVal
	up   *Env
}

func (e *Env) get(n string) (SVal, bool) {
	for x := e; x != nil; x = x.up {
		if v, ok := x.vars[n]; ok {
			return v, true
		}
	}
	return SVal{}, false
}

// flat is an immutable copy.
func (e *Env) flat() *Env {
	n := &Env{vars: map[string]SVal{}}
	for x := e; x != nil; x = x.up {
		for k, v := range x.vars {
			if _, ok := n.vars[k]; !ok {
				n.vars[k] = v
			}
		}
	}
	return n
}

type specErr struct{ msg string }

func serr(e *Expr, f string, a ...interface{}) {
	p := ""
	if e != nil {
		p = e.pos + ": " + e.String() + ": "
	}
	panic(specErr{p + fmt.Sprintf(f, a...)})
}

var (
	tInt  = types.Typ[types.UntypedInt]
	tBool = types.Typ[types.Bool]
)

func (x *Exec) mi(t *Term) SVal { return SVal{k: 'v', v: Val{tInt, []*Term{t}}} }
func (x *Exec) mb(t *Term) SVal { return SVal{k: 'v', v: Val{tBool, []*Term{t}}} }

// ev is an evaluation context.
type ev struct {
	st    *State
	env   *Env
	fr    *Frame
	hyp   bool
	bound map[string]bool
}

func (st *State) ev(fr *Frame) *ev { return &ev{st: st, env: &Env{vars: fr.senv}, fr: fr} }

func (v *ev) with(name string, s SVal) *ev {
	n := *v
	n.env = &Env{vars: map[string]SVal{name: s}, up: v.env}
	return &n
}

func (v *ev) int(e *Expr) *Term {
	r := v.eval(e)
	if r.k != 'v' || len(r.v.L) != 1 || r.v.L[0].sort != SInt {
		serr(e, "integer expected")
	}
	return r.v.L[0]
}

func (v *ev) bool(e *Expr) *Term {
	r := v.eval(e)
	if r.k != 'v' || len(r.v.L) != 1 || r.v.L[0].sort != SBool {
		serr(e, "boolean expected")
	}
	return r.v.L[0]
}

func (v *ev) seq(e *Expr) *Seq {
	r := v.eval(e)
	return v.toSeq(e, r)
}

func (v *ev) toSeq(e *Expr, r SVal) *Seq {
	if r.k == 's' {
		return r.s
	}
	if r.k == 'v' && isString(r.v.T) {
		return v.st.strSeq(r.v)
	}
	if r.k == 'v' && isSlice(r.v.T) {
		return v.st.sliceSeq(r.v)
	}
	serr(e, "sequence expected")
	return nil
}

func (st *State) strSeq(s Val) *Seq {
	x := st.x
	o, ok := x.lookup(s.L[0]).(*StrObj)
	if ok && o.arr != nil {
		return &Seq{o.arr, s.L[1], s.L[2]}
	}
	if ok && o.mem != nil {
		// snapshot of the memory now
		l := *o.mem
		l.idx = x.c.zero
		k, _ := l.key("")
		a := st.readHMArr(x.heapMap(st, k, true, x.byteLeaf()), l.ref)
		return &Seq{a, x.c.Add(o.mem.idx, s.L[1]), s.L[2]}
	}
	base := Val{s.T, []*Term{s.L[0], x.c.zero, s.L[2]}}
	return &Seq{&Arr{kind: 'f', sort: SInt, f: func(st *State, k *Term) *Term { return st.strAt(base, k) }}, s.L[1], s.L[2]}
}

func (st *State) sliceSeq(s Val) *Seq {
	el := under(s.T).(*types.Slice).Elem()
	ls := st.x.leaves(el)
	if len(ls) != 1 {
		panic(specErr{"sequence of a slice with composite elements"})
	}
	return &Seq{st.getArr(s.L[0], el, ls[0]), s.L[1], s.L[2]}
}

func (st *State) seqAt(s *Seq, i *Term) *Term { return st.readArr(s.arr, st.x.c.Add(s.off, i)) }

// norm0 makes an array with offset 0.
func (st *State) seqArr(s *Seq) *Arr {
	if s.off == st.x.c.zero {
		return s.arr
	}
	a, off := s.arr, s.off
	return &Arr{kind: 'f', sort: a.sort, f: func(st *State, k *Term) *Term { return st.readArr(a, st.x.c.Add(off, k)) }}
}

// ---- ghosts

func ghostLeaf(kind string) Leaf {
	switch kind {
	case "bool", "bmap":
		return Leaf{"", SBool, nil, nil, 'b', tBool}
	case "seq":
		return Leaf{"", SInt, big0, big255, 'i', tInt}
	}
	return Leaf{"", SInt, nil, nil, 'i', tInt}
}

var lenLeaf = Leaf{"", SInt, big0, maxLen, 'l', tInt}

func (v *ev) ghostRead(key, kind string, ref *Term) SVal {
	st, x := v.st, v.st.x
	switch kind {
	case "int", "ptr", "bool":
		h := x.heapMap(st, key, false, ghostLeaf(kind))
		t := st.readHM(h, ref)
		if kind == "bool" {
			return x.mb(t)
		}
		return x.mi(t)
	case "seq", "iseq":
		a := st.readHMArr(x.heapMap(st, key+"#a", true, ghostLeaf(kind)), ref)
		n := st.readHM(x.heapMap(st, key+"#n", false, lenLeaf), ref)
		return SVal{k: 's', s: &Seq{a, x.c.zero, n}}
	case "map", "bmap":
		return SVal{k: 'g', m: key, v: Val{tInt, []*Term{ref}}, s: &Seq{arr: st.readHMArr(x.heapMap(st, key, true, ghostLeaf(kind)), ref)}}
	}
	panic(specErr{"ghost kind " + kind})
}

func (v *ev) ghostWrite(key, kind string, ref *Term, val SVal, e *Expr) {
	st, x := v.st, v.st.x
	switch kind {
	case "int", "ptr", "bool":
		h := x.heapMap(st, key, false, ghostLeaf(kind))
		if val.k == 'n' {
			val = x.mi(x.c.zero)
		}
		st.noteWrite(key, ref)
		st.writeHM(h, ref, v.one(e, val), nil)
	case "seq", "iseq":
		s := v.toSeq(e, val)
		ha := x.heapMap(st, key+"#a", true, ghostLeaf(kind))
		hn := x.heapMap(st, key+"#n", false, lenLeaf)
		st.noteWrite(key+"#a", ref)
		st.noteWrite(key+"#n", ref)
		st.writeHM(ha, ref, nil, st.seqArr(s))
		st.writeHM(hn, ref, s.n, nil)
	default:
		serr(e, "cannot assign a ghost %s", kind)
	}
}

func (v *ev) one(e *Expr, s SVal) *Term {
	if s.k == 'n' {
		return v.st.x.c.zero
	}
	if s.k != 'v' || len(s.v.L) != 1 {
		serr(e, "scalar expected")
	}
	return s.v.L[0]
}

// ghostOf finds the ghost an lvalue names.
func (v *ev) ghostOf(e *Expr) (key, kind string, ref *Term, ok bool) {
	x := v.st.x
	if e.op == "id" {
		if _, shadow := v.env.get(e.name); shadow {
			return
		}
		if g := x.U.spec.ghosts[e.name]; g != nil {
			return "ghost:" + g.name, g.kind, x.c.zero, true
		}
		return
	}
	if e.op == "field" && strings.HasPrefix(e.name, "$") {
		b := v.eval(e.args[0])
		if b.k != 'v' {
			serr(e, "ghost field of a non-value")
		}
		var tn string
		t := b.v.T
		if p, isP := under(t).(*types.Pointer); isP {
			t = p.Elem()
			tn = typeKey(t)
		} else {
			tn = typeKey(t)
		}
		g := x.U.spec.ghosts[tn+"."+e.name]
		if g == nil {
			serr(e, "no ghost field %s.%s", tn, e.name)
		}
		r := b.v.L[0]
		if isIface(b.v.T) {
			r = b.v.L[1]
		}
		return "gf:" + tn + "." + e.name, g.kind, r, true
	}
	return
}

// ---- locations

func (v *ev) loc(e *Expr) (Loc, types.Type, bool) {
	x := v.st.x
	switch e.op {
	case "deref":
		p := v.eval(e.args[0])
		if p.k == 'v' && isPtr(p.v.T) {
			return x.ptrLoc(p.v), under(p.v.T).(*types.Pointer).Elem(), true
		}
	case "field":
		if strings.HasPrefix(e.name, "$") {
			return Loc{}, nil, false
		}
		if l, t, ok := v.loc(e.args[0]); ok {
			if s, isS := under(t).(*types.Struct); isS {
				return v.fieldLoc(e, l, s)
			}
		}
		if v.isPkgName(e) {
			if g, ok := v.pkgObj(e).(*types.Var); ok {
				if sg := x.L.globalOf(g); sg != nil {
					return x.ptrLoc(x.globalPtr(sg)), g.Type(), true
				}
			}
			return Loc{}, nil, false
		}
		b := v.eval(e.args[0])
		if b.k == 'v' && isPtr(b.v.T) {
			t := under(b.v.T).(*types.Pointer).Elem()
			if s, isS := under(t).(*types.Struct); isS {
				return v.fieldLoc(e, x.ptrLoc(b.v), s)
			}
		}
	case "index":
		if l, t, ok := v.loc(e.args[0]); ok {
			if _, isA := under(t).(*types.Array); isA {
				return arrElem(l, v.int(e.args[1])), under(t).(*types.Array).Elem(), true
			}
		}
		b := v.eval(e.args[0])
		if b.k == 'v' && isSlice(b.v.T) {
			el := under(b.v.T).(*types.Slice).Elem()
			return x.memLoc(b.v.L[0], el, x.c.Add(b.v.L[1], v.int(e.args[1]))), el, true
		}
	case "id":
		// address-taken source variable in a loop invariant
		if b, ok := v.env.get("&" + e.name); ok && isPtr(b.v.T) {
			return x.ptrLoc(b.v), under(b.v.T).(*types.Pointer).Elem(), true
		}
	}
	return Loc{}, nil, false
}

func (v *ev) fieldLoc(e *Expr, l Loc, s *types.Struct) (Loc, types.Type, bool) {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == e.name {
			l.path += "." + e.name
			return l, s.Field(i).Type(), true
		}
	}
	// promoted through embedded fields
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Embedded() {
			continue
		}
		nl := l
		nl.path += "." + f.Name()
		t := f.Type()
		if p, ok := under(t).(*types.Pointer); ok {
			pv := v.st.load(nl, t)
			nl = v.st.x.ptrLoc(pv)
			t = p.Elem()
		}
		if es, ok := under(t).(*types.Struct); ok {
			if has(es, e.name) {
				return v.fieldLoc(e, nl, es)
			}
		}
	}
	serr(e, "no field %s", e.name)
	return l, nil, false
}

func has(s *types.Struct, n string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return true
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			t := under(s.Field(i).Type())
			if p, ok := t.(*types.Pointer); ok {
				t = under(p.Elem())
			}
			if es, ok := t.(*types.Struct); ok && has(es, n) {
				return true
			}
		}
	}
	return false
}

func (v *ev) isPkgName(e *Expr) bool {
	if e.op != "field" || e.args[0].op != "id" {
		return false
	}
	if _, ok := v.env.get(e.args[0].name); ok {
		return false
	}
	if _, ok := v.env.get("&" + e.args[0].name); ok {
		return false
	}
	return v.st.x.L.pkgNamed(e.args[0].name) != nil
}

func (v *ev) pkgObj(e *Expr) types.Object {
	p := v.st.x.L.pkgNamed(e.args[0].name)
	return p.Scope().Lookup(e.name)
}

// ---- evaluation

func (v *ev) eval(e *Expr) SVal {
	st := v.st
	x := st.x
	c := x.c
	switch e.op {
	case "num":
		return x.mi(c.Big(e.n))
	case "str":
		return SVal{k: 'v', v: x.strLit(e.name)}
	case "id":
		if s, ok := v.env.get(e.name); ok {
			return s
		}
		if b, ok := v.env.get("&" + e.name); ok && isPtr(b.v.T) {
			return SVal{k: 'v', v: st.load(x.ptrLoc(b.v), under(b.v.T).(*types.Pointer).Elem())}
		}
		switch e.name {
		case "true":
			return x.mb(c.T)
		case "false":
			return x.mb(c.F)
		case "nil":
			return SVal{k: 'n'}
		case "maxint":
			return x.mi(c.Big(new(big.Int).Sub(pow2(63), big1)))
		case "empty":
			return SVal{k: 's', s: &Seq{&Arr{kind: 'z', sort: SInt}, c.zero, c.zero}}
		}
		if key, kind, ref, ok := v.ghostOf(e); ok {
			return v.ghostRead(key, kind, ref)
		}
		if m := x.U.spec.macros[e.name]; m != nil && len(m.params) == 0 {
			n := *v
			n.env = nil
			return n.eval(m.body)
		}
		serr(e, "unknown name")
	case "field":
		if key, kind, ref, ok := v.ghostOf(e); ok {
			return v.ghostRead(key, kind, ref)
		}
		if v.isPkgName(e) {
			switch o := v.pkgObj(e).(type) {
			case *types.Const:
				return SVal{k: 'v', v: x.goConst(o.Val(), o.Type())}
			case *types.Var:
				l, t, _ := v.loc(e)
				return SVal{k: 'v', v: st.load(l, t)}
			case *types.Func:
				if fn := x.L.prog.FuncValue(o); fn != nil {
					return SVal{k: 'v', v: x.fnVal(fn, nil, fn.Type())}
				}
			}
			serr(e, "unknown package member")
		}
		if l, t, ok := v.loc(e); ok {
			return SVal{k: 'v', v: st.load(l, t)}
		}
		b := v.eval(e.args[0])
		if b.k == 'v' {
			if s, ok := under(b.v.T).(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == e.name {
						return SVal{k: 'v', v: x.field(b.v, i)}
					}
				}
			}
		}
		serr(e, "cannot select field")
	case "deref":
		p := v.eval(e.args[0])
		if p.k != 'v' || !isPtr(p.v.T) {
			serr(e, "pointer expected")
		}
		return SVal{k: 'v', v: st.load(x.ptrLoc(p.v), under(p.v.T).(*types.Pointer).Elem())}
	case "addr":
		l, t, ok := v.loc(e.args[0])
		if !ok {
			serr(e, "no location")
		}
		return SVal{k: 'v', v: x.mkPtr(l, types.NewPointer(t))}
	case "index":
		b := v.eval(e.args[0])
		switch {
		case b.k == 's':
			return x.mi(st.seqAt(b.s, v.int(e.args[1])))
		case b.k == 'g':
			t := st.readArr(b.s.arr, v.one(e, v.eval(e.args[1])))
			if t.sort == SBool {
				return x.mb(t)
			}
			return x.mi(t)
		case b.k == 'v' && isString(b.v.T):
			return x.mi(st.strAt(b.v, v.int(e.args[1])))
		case b.k == 'v':
			if mt, ok := under(b.v.T).(*types.Map); ok {
				k := v.conv(e, v.eval(e.args[1]), mt.Key())
				r, _ := x.mapGet(st, b.v, k)
				return SVal{k: 'v', v: r}
			}
			if at, ok := under(b.v.T).(*types.Array); ok {
				i := v.int(e.args[1])
				if n, isC := i.Int64(); isC {
					k := len(x.leaves(at.Elem()))
					return SVal{k: 'v', v: Val{at.Elem(), b.v.L[int(n)*k : int(n)*k+k]}}
				}
				if len(x.leaves(at.Elem())) == 1 && at.Len() > 0 {
					r := b.v.L[at.Len()-1]
					for j := at.Len() - 2; j >= 0; j-- {
						r = c.Ite(st.decide(c.Eq(i, c.Int(j))), b.v.L[j], r)
					}
					return SVal{k: 'v', v: Val{at.Elem(), []*Term{r}}}
				}
			}
			if l, t, ok := v.loc(e); ok {
				return SVal{k: 'v', v: st.load(l, t)}
			}
		}
		serr(e, "cannot index")
	case "slice":
		b := v.eval(e.args[0])
		if b.k == 'v' && isPtr(b.v.T) {
			at, ok := under(under(b.v.T).(*types.Pointer).Elem()).(*types.Array)
			if !ok {
				serr(e, "cannot slice")
			}
			l := x.ptrLoc(b.v)
			base := l.ref
			if !strings.HasPrefix(l.root, "@") || l.path != "" {
				base = x.register("region"+l.regKey(), &l)
			}
			b = SVal{k: 'v', v: Val{types.NewSlice(at.Elem()), []*Term{base, c.zero, c.Int(at.Len()), c.Int(at.Len())}}}
		}
		lo := c.zero
		if e.args[1] != nil {
			lo = v.int(e.args[1])
		}
		if b.k == 's' || isString(b.v.T) || isSlice(b.v.T) {
			if b.k == 'v' && isSlice(b.v.T) {
				hi := b.v.L[2]
				if e.args[2] != nil {
					hi = v.int(e.args[2])
				}
				return SVal{k: 'v', v: Val{b.v.T, []*Term{b.v.L[0], c.Add(b.v.L[1], lo), c.Sub(hi, lo), c.Sub(b.v.L[3], lo)}}}
			}
			s := v.toSeq(e, b)
			hi := s.n
			if e.args[2] != nil {
				hi = v.int(e.args[2])
			}
			return SVal{k: 's', s: &Seq{s.arr, c.Add(s.off, lo), c.Sub(hi, lo)}}
		}
		serr(e, "cannot slice")
	case "call":
		return v.call(e)
	case "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>":
		a, b := v.int(e.args[0]), v.int(e.args[1])
		switch e.op {
		case "+":
			return x.mi(c.Add(a, b))
		case "-":
			return x.mi(c.Sub(a, b))
		case "*":
			return x.mi(c.Mul(a, b))
		case "/", "%", "<<", ">>":
			k, ok := b.Int64()
			if !ok || k <= 0 && (e.op == "/" || e.op == "%") {
				serr(e, "positive constant needed on the right")
			}
			switch e.op {
			case "/":
				return x.mi(c.Div(a, b.val))
			case "%":
				return x.mi(c.Mod(a, b.val))
			case "<<":
				return x.mi(c.MulK(pow2(int(k)), a))
			}
			return x.mi(c.Div(a, pow2(int(k))))
		case "&":
			return x.mi(st.bitop(token.AND, a, b, 64))
		case "|":
			return x.mi(st.bitop(token.OR, a, b, 64))
		}
		if a.free || b.free {
			return x.mi(x.xor8(a, b))
		}
		return x.mi(st.bitop(token.XOR, a, b, 8))
	case "neg":
		return x.mi(c.Neg(v.int(e.args[0])))
	case "!":
		return x.mb(c.Not(v.bool(e.args[0])))
	case "&&":
		a := v.bool(e.args[0])
		if a == c.F {
			return x.mb(c.F)
		}
		return x.mb(c.And(a, v.bool(e.args[1])))
	case "||":
		a := v.bool(e.args[0])
		if a == c.T {
			return x.mb(c.T)
		}
		return x.mb(c.Or(a, v.bool(e.args[1])))
	case "==>":
		a := v.bool(e.args[0])
		if st.decide(a) == c.F {
			return x.mb(c.T)
		}
		return x.mb(c.Imp(a, v.bool(e.args[1])))
	case "<==>":
		return x.mb(c.Eq(v.bool(e.args[0]), v.bool(e.args[1])))
	case "ite":
		cd := st.decide(v.bool(e.args[0]))
		if cd == c.T {
			return v.eval(e.args[1])
		}
		if cd == c.F {
			return v.eval(e.args[2])
		}
		a, b := v.eval(e.args[1]), v.eval(e.args[2])
		if a.k == 's' || b.k == 's' {
			sa, sb := v.toSeq(e, a), v.toSeq(e, b)
			aa, ab := st.seqArr(sa), st.seqArr(sb)
			return SVal{k: 's', s: &Seq{&Arr{kind: 'i', cond: cd, a: aa, b: ab, sort: SInt}, c.zero, c.Ite(cd, sa.n, sb.n)}}
		}
		if a.k == 'n' {
			a = SVal{k: 'v', v: x.zero(b.v.T)}
		}
		if b.k == 'n' {
			b = SVal{k: 'v', v: x.zero(a.v.T)}
		}
		r := Val{T: a.v.T}
		for i := range a.v.L {
			r.L = append(r.L, c.Ite(cd, a.v.L[i], b.v.L[i]))
		}
		return SVal{k: 'v', v: r}
	case "<", "<=", ">", ">=":
		a, b := v.int(e.args[0]), v.int(e.args[1])
		switch e.op {
		case "<":
			return x.mb(c.Lt(a, b))
		case "<=":
			return x.mb(c.Le(a, b))
		case ">":
			return x.mb(c.Lt(b, a))
		}
		return x.mb(c.Le(b, a))
	case "==":
		return x.mb(v.equal(e, v.eval(e.args[0]), v.eval(e.args[1])))
	case "!=":
		return x.mb(c.Not(v.equal(e, v.eval(e.args[0]), v.eval(e.args[1]))))
	case "forall", "exists":
		lo, hi := v.int(e.args[0]), v.int(e.args[1])
		bv := c.BVar(e.name)
		b := v.with(e.name, x.mi(bv)).bool(e.args[2])
		rng := c.And(c.Le(lo, bv), c.Lt(bv, hi))
		if e.op == "forall" {
			return x.mb(c.Forall([]*Term{bv}, c.Imp(rng, b)))
		}
		return x.mb(c.Not(c.Forall([]*Term{bv}, c.Not(c.And(rng, b)))))
	}
	serr(e, "cannot evaluate %s", e.op)
	return SVal{}
}

func (x *Exec) goConst(k constant.Value, t types.Type) Val {
	return x.constVal(ssa.NewConst(k, t))
}

func (v *ev) conv(e *Expr, s SVal, t types.Type) Val {
	x := v.st.x
	if s.k == 'n' {
		return x.zero(t)
	}
	if s.k == 's' {
		if isString(t) {
			return v.st.newStrT(&StrObj{arr: v.st.seqArr(s.s)}, s.s.n, t)
		}
		serr(e, "sequence where %s is expected", t)
	}
	if s.k != 'v' {
		serr(e, "value expected")
	}
	r := s.v
	if isIface(t) && !isIface(r.T) {
		return x.mkIface(r, t)
	}
	if b, ok := r.T.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && len(r.L) == 1 && len(x.leaves(t)) == 1 {
		return Val{t, r.L}
	}
	if len(x.leaves(t)) != len(r.L) {
		serr(e, "cannot use %s as %s", r.T, t)
	}
	return Val{t, r.L}
}

func (st *State) newStrT(o *StrObj, n *Term, t types.Type) Val {
	r := st.newStr(o, n)
	r.T = t
	return r
}

func (v *ev) equal(e *Expr, a, b SVal) *Term {
	st := v.st
	x := st.x
	c := x.c
	if a.k == 'n' {
		a, b = b, a
	}
	if b.k == 'n' {
		if a.k == 'n' {
			return c.T
		}
		if a.k != 'v' {
			serr(e, "comparison with nil")
		}
		return c.Eq(a.v.L[0], c.zero)
	}
	if a.k == 's' || b.k == 's' {
		sa, sb := v.toSeq(e, a), v.toSeq(e, b)
		le := c.Eq(sa.n, sb.n)
		if le == c.F {
			return c.F
		}
		if n, ok := sb.n.Int64(); ok && n <= 64 {
			cs := []*Term{le}
			for i := int64(0); i < n; i++ {
				cs = append(cs, c.Eq(st.seqAt(sa, c.Int(i)), st.seqAt(sb, c.Int(i))))
			}
			return c.And(cs...)
		}
		bv := c.BVar("q")
		return c.And(le, c.Forall([]*Term{bv}, c.Imp(c.And(c.Le(c.zero, bv), c.Lt(bv, sb.n)), c.Eq(st.seqAt(sa, bv), st.seqAt(sb, bv)))))
	}
	if a.k == 'g' || b.k == 'g' {
		bv := c.BVar("q")
		return c.Forall([]*Term{bv}, c.Eq(st.readArr(a.s.arr, bv), st.readArr(b.s.arr, bv)))
	}
	if isIface(a.v.T) && !isIface(b.v.T) {
		b.v = x.mkIface(v.fixUntyped(b.v), a.v.T)
	} else if isIface(b.v.T) && !isIface(a.v.T) {
		a.v = x.mkIface(v.fixUntyped(a.v), b.v.T)
	}
	if isSlice(a.v.T) && isSlice(b.v.T) {
		return c.And(c.Eq(a.v.L[0], b.v.L[0]), c.Eq(a.v.L[1], b.v.L[1]), c.Eq(a.v.L[2], b.v.L[2]))
	}
	if len(a.v.L) != len(b.v.L) {
		serr(e, "comparison of %s and %s", a.v.T, b.v.T)
	}
	return st.valEq(a.v, b.v)
}

func (v *ev) fixUntyped(a Val) Val {
	if a.T == tInt {
		a.T = types.Typ[types.Int]
	}
	return a
}

func (v *ev) at(label string, e *Expr, f func(*ev) SVal) SVal {
	st := v.st
	var sn *Snap
	if v.fr != nil {
		sn = v.fr.snaps[label]
	}
	if sn == nil {
		// look in the nearest enclosing script frame
		for i := len(st.frames) - 1; i >= 0 && sn == nil; i-- {
			sn = st.frames[i].snaps[label]
		}
	}
	if sn == nil {
		serr(e, "no snapshot %s", label)
	}
	cur := st.heap
	st.heap = sn.heap
	defer func() { st.heap = cur }()
	n := *v
	if sn.args != nil {
		n.env = &Env{vars: sn.args, up: v.env}
	}
	return f(&n)
}

func (v *ev) call(e *Expr) SVal {
	st := v.st
	x := st.x
	c := x.c
	arg := func(i int) *Expr {
		if i >= len(e.args) {
			serr(e, "too few arguments")
		}
		return e.args[i]
	}
	switch e.name {
	case "old":
		return v.at("old", e, func(n *ev) SVal { return n.frozen(n.eval(arg(0))) })
	case "entry":
		return v.at("entry", e, func(n *ev) SVal { return n.frozen(n.eval(arg(0))) })
	case "at":
		return v.at(e.args[0].name, e, func(n *ev) SVal { return n.frozen(n.eval(arg(1))) })
	case "len", "cap":
		a := v.eval(arg(0))
		if a.k == 's' {
			return x.mi(a.s.n)
		}
		if a.k == 'v' {
			switch {
			case isString(a.v.T):
				return x.mi(a.v.L[2])
			case isMap(a.v.T):
				return x.mi(x.mapLen(st, a.v))
			case isSlice(a.v.T):
				if e.name == "cap" {
					return x.mi(a.v.L[3])
				}
				return x.mi(a.v.L[2])
			}
			if at, ok := under(a.v.T).(*types.Array); ok {
				return x.mi(c.Int(at.Len()))
			}
		}
		serr(e, "len of what")
	case "bytes", "str":
		a := v.eval(arg(0))
		if a.k == 'v' {
			if at, ok := under(a.v.T).(*types.Array); ok {
				L := a.v.L
				return SVal{k: 's', s: &Seq{&Arr{kind: 'f', sort: SInt, f: func(st *State, k *Term) *Term {
					if len(L) == 0 {
						return c.zero
					}
					r := L[len(L)-1]
					for j := len(L) - 2; j >= 0; j-- {
						r = c.Ite(st.decide(c.Eq(k, c.Int(int64(j)))), L[j], r)
					}
					return r
				}}, c.zero, c.Int(at.Len())}}
			}
		}
		return SVal{k: 's', s: v.toSeq(e, a)}
	case "cat":
		r := v.seq(arg(0))
		for _, ae := range e.args[1:] {
			r = v.cat2(r, v.seq(ae))
		}
		return SVal{k: 's', s: r}
	case "sub":
		s := v.seq(arg(0))
		lo, hi := v.int(arg(1)), v.int(arg(2))
		return SVal{k: 's', s: &Seq{s.arr, c.Add(s.off, lo), c.Sub(hi, lo)}}
	case "seqfn":
		n := v.int(arg(0))
		name := e.args[1].name
		body := arg(2)
		// the body is evaluated against the heap of this moment
		env := v.env.flat()
		heap := st.heap
		fr := v.fr
		hs := map[string]*HM{}
		for k, h := range heap {
			hs[k] = h
		}
		return SVal{k: 's', s: &Seq{&Arr{kind: 'f', sort: SInt, f: func(s2 *State, k *Term) *Term {
			cur := s2.heap
			s2.heap = hs
			defer func() { s2.heap = cur }()
			n := &ev{st: s2, env: &Env{vars: map[string]SVal{name: x.mi(k)}, up: env}, fr: fr}
			return n.int(body)
		}}, c.zero, n}}
	case "unit":
		t := v.one(e, v.eval(arg(0)))
		return SVal{k: 's', s: &Seq{&Arr{kind: 'f', sort: SInt, f: func(*State, *Term) *Term { return t }}, c.zero, c.one}}
	case "append":
		s := v.seq(arg(0))
		for _, ae := range e.args[1:] {
			t := v.one(e, v.eval(ae))
			s = v.cat2(s, &Seq{&Arr{kind: 'f', sort: SInt, f: func(*State, *Term) *Term { return t }}, c.zero, c.one})
		}
		return SVal{k: 's', s: s}
	case "min", "max":
		a, b := v.int(arg(0)), v.int(arg(1))
		cd := st.decide(c.Le(a, b))
		if e.name == "max" {
			a, b = b, a
		}
		return x.mi(c.Ite(cd, a, b))
	case "ite":
		n := *e
		n.op = "ite"
		return v.eval(&n)
	case "istype":
		a := v.eval(arg(0))
		t := x.L.typ(e.typ)
		if isIface(t) {
			u := c.DeclUF("implements."+typeKey(t), 1, SBool, nil, nil)
			return x.mb(c.And(c.Not(c.Eq(a.v.L[0], c.zero)), c.App(u, a.v.L[0])))
		}
		return x.mb(c.Eq(a.v.L[0], c.Int(x.tag(t))))
	case "unbox":
		a := v.eval(arg(0))
		return SVal{k: 'v', v: st.unbox(a.v.L[1], x.L.typ(e.typ))}
	case "unboxref":
		return SVal{k: 'v', v: st.unbox(v.int(arg(0)), x.L.typ(e.typ))}
	case "cast":
		t := x.L.typ(e.typ)
		r := v.int(arg(0))
		if isIface(t) {
			return SVal{k: 'v', v: Val{t, []*Term{r, v.int(arg(1))}}}
		}
		if len(x.leaves(t)) != 1 {
			serr(e, "cast to a type of several parts")
		}
		return SVal{k: 'v', v: Val{t, []*Term{r}}}
	case "isnew":
		a := v.eval(arg(0))
		if a.k != 'v' {
			serr(e, "isnew of a non-value")
		}
		r := a.v.L[0]
		if isIface(a.v.T) {
			r = a.v.L[1]
		}
		if l, ok := x.lookup(r).(*Loc); ok {
			r = l.ref
		}
		na := -1
		if v.fr != nil && v.fr.snaps["entry"] != nil {
			na = v.fr.snaps["entry"].na
		} else if v.fr != nil && v.fr.snaps["old"] != nil {
			na = v.fr.snaps["old"].na
		}
		if na < 0 {
			serr(e, "isnew outside a loop")
		}
		return x.mb(c.And(c.Lt(r, c.Int(int64(-na))), c.Lt(c.Int(-(1<<50)), r)))
	case "conv":
		t := x.L.typ(e.typ)
		return SVal{k: 'v', v: v.conv(e, v.eval(arg(0)), t)}
	case "zero":
		return SVal{k: 'v', v: x.zero(x.L.typ(e.typ))}
	case "typeid":
		return x.mi(c.Int(x.tag(x.L.typ(e.typ))))
	case "has":
		m := v.eval(arg(0))
		mt, ok := under(m.v.T).(*types.Map)
		if !ok {
			serr(e, "map expected")
		}
		_, in := x.mapGet(st, m.v, v.conv(e, v.eval(arg(1)), mt.Key()))
		return x.mb(in)
	case "ref":
		a := v.eval(arg(0))
		if a.k == 'n' {
			return x.mi(c.zero)
		}
		if a.k != 'v' || len(a.v.L) < 1 {
			serr(e, "no reference")
		}
		if isIface(a.v.T) {
			return x.mi(a.v.L[1])
		}
		return x.mi(a.v.L[0])
	case "tag":
		a := v.eval(arg(0))
		if a.k != 'v' || len(a.v.L) < 1 {
			serr(e, "no type tag")
		}
		return x.mi(a.v.L[0])
	case "off":
		a := v.eval(arg(0))
		if a.k != 'v' || len(a.v.L) < 2 {
			serr(e, "no offset")
		}
		return x.mi(a.v.L[1])
	case "strid":
		a := v.eval(arg(0))
		return x.mi(st.strID(a.v))
	case "closureof":
		// closureof(f, "key"): the function value f is the named function or closure
		a := v.eval(arg(0))
		fv, ok := x.lookup(a.v.L[0]).(*FnVal)
		return x.mb(c.Bool(ok && fnKey(fv.fn) == arg(1).name))
	case "samefunc":
		// samefunc(f, g): the same function with the same captured values
		a, b := v.eval(arg(0)), v.eval(arg(1))
		return x.mb(x.sameFunc(st, a.v.L[0], b.v.L[0]))
	case "captured":
		// captured(f, i): the i-th captured variable of a closure (a pointer to it when captured by reference)
		a := v.eval(arg(0))
		fv, ok := x.lookup(a.v.L[0]).(*FnVal)
		i, _ := v.int(arg(1)).Int64()
		if !ok || int(i) >= len(fv.binds) {
			serr(e, "no such captured variable")
		}
		b := fv.binds[i]
		b.T = fv.fn.FreeVars[i].Type()
		return SVal{k: 'v', v: b}
	case "known":
		a := v.eval(arg(0))
		_, ok := x.lookup(v.one(e, a)).(*FnVal)
		return x.mb(c.Bool(ok))
	case "int":
		t := v.bool(arg(0))
		return x.mi(c.Ite(t, c.one, c.zero))
	case "u8":
		return x.mi(c.Mod(v.int(arg(0)), big256))
	case "wrap":
		// wrap(e, bits): two's complement
		n, _ := v.int(arg(1)).Int64()
		t := v.int(arg(0))
		h := pow2(int(n - 1))
		return x.mi(c.Sub(c.Mod(c.Add(t, c.Big(h)), pow2(int(n))), c.Big(h)))
	case "pow2":
		n, ok := v.int(arg(0)).Int64()
		if !ok {
			serr(e, "constant needed")
		}
		return x.mi(c.Big(pow2(int(n))))
	}
	if u := x.U.spec.ufs[e.name]; u != nil {
		so := SInt
		if u.bool {
			so = SBool
		}
		d := c.DeclUF("spec."+u.name, u.arity, so, u.lo, u.hi)
		var as []*Term
		for _, ae := range e.args {
			as = append(as, v.one(ae, v.eval(ae)))
		}
		if len(as) != u.arity {
			serr(e, "arity")
		}
		r := c.App(d, as...)
		if u.bool {
			return x.mb(r)
		}
		return x.mi(r)
	}
	if m := x.U.spec.macros[e.name]; m != nil {
		return v.macro(e, m).eval(m.body)
	}
	serr(e, "unknown function")
	return SVal{}
}

func (v *ev) macro(e *Expr, m *Macro) *ev {
	if len(m.params) != len(e.args) {
		serr(e, "macro arity")
	}
	env := &Env{vars: map[string]SVal{}}
	for i, p := range m.params {
		env.vars[p] = v.eval(e.args[i])
	}
	n := *v
	n.env = env
	return &n
}

// frozen makes aliasing values independent of later heap changes.
func (v *ev) frozen(s SVal) SVal {
	if s.k == 'v' && isString(s.v.T) {
		if o, ok := v.st.x.lookup(s.v.L[0]).(*StrObj); ok && o.mem != nil {
			return SVal{k: 's', s: v.st.strSeq(s.v)}
		}
	}
	return s
}

func (v *ev) cat2(a, b *Seq) *Seq {
	c := v.st.x.c
	if a.n == c.zero {
		return b
	}
	if b.n == c.zero {
		return a
	}
	return &Seq{&Arr{kind: 'f', sort: SInt, f: func(st *State, k *Term) *Term {
		cd := st.decide(c.Lt(k, a.n))
		if cd == c.T {
			return st.seqAt(a, k)
		}
		if cd == c.F {
			return st.seqAt(b, c.Sub(k, a.n))
		}
		return c.Ite(cd, st.seqAt(a, k), st.seqAt(b, c.Sub(k, a.n)))
	}}, c.zero, c.Add(a.n, b.n)}
}

// ---- proving and assuming expressions

func (v *ev) sub(st *State) *ev {
	n := *v
	n.st = st
	return &n
}

// prove discharges e; it returns whether everything was proved. Facts are added to the state.
func (v *ev) prove(e *Expr, kind, name, pos string) bool {
	ok := v.prove0(e, kind, name, pos)
	return ok
}

func (v *ev) prove0(e *Expr, kind, name, pos string) bool {
	st := v.st
	c := st.x.c
	if st.dead {
		return true
	}
	if st.mode != nil {
		v.assume(e)
		return true
	}
	switch e.op {
	case "&&":
		a := v.prove0(e.args[0], kind, name, pos)
		b := v.prove0(e.args[1], kind, name, pos)
		return a && b
	case "==>":
		h := v.bool(e.args[0])
		if st.simpBool(h) == c.F {
			o := st.x.oblig(name, kind, pos)
			o.Count++
			if o.By == "" {
				o.By = "simplifier"
			}
			return true
		}
		s2 := st.clone()
		s2.fact(h)
		if s2.dead || (st.simpBool(h) != c.T && !s2.feasible(c.T)) {
			o := st.x.oblig(name, kind, pos)
			o.Count++
			if o.By == "" {
				o.By = "z3-5.3.2"
			}
			return true
		}
		r := v.sub(s2).prove0(e.args[1], kind, name, pos)
		v.assumeScalar(e)
		return r
	case "forall":
		s2 := st.clone()
		v2 := v.sub(s2)
		lo, hi := v2.int(e.args[0]), v2.int(e.args[1])
		k := c.Fresh("sk."+e.name, SInt, nil, nil)
		s2.fact(c.Le(lo, k))
		s2.fact(c.Lt(k, hi))
		if s2.dead || !s2.feasible(c.T) {
			o := st.x.oblig(name, kind, pos)
			o.Count++
			if o.By == "" {
				o.By = "z3-5.3.2"
			}
			return true
		}
		return v2.with(e.name, st.x.mi(k)).prove0(e.args[2], kind, name, pos)
	case "ite":
		cd := v.bool(e.args[0])
		if st.simpBool(cd) == c.T {
			return v.prove0(e.args[1], kind, name, pos)
		}
		if st.simpBool(cd) == c.F {
			return v.prove0(e.args[2], kind, name, pos)
		}
		a, b := st.clone(), st.clone()
		a.fact(cd)
		b.fact(c.Not(cd))
		r := true
		if !a.dead && a.feasible(c.T) {
			r = v.sub(a).prove0(e.args[1], kind, name, pos) && r
		}
		if !b.dead && b.feasible(c.T) {
			r = v.sub(b).prove0(e.args[2], kind, name, pos) && r
		}
		return r
	case "==":
		a, b := v.eval(e.args[0]), v.eval(e.args[1])
		if a.k == 's' || b.k == 's' {
			sa, sb := v.toSeq(e, a), v.toSeq(e, b)
			r := st.prove(c.Eq(sa.n, sb.n), kind, name, pos)
			if !r {
				return false
			}
			return st.proveSeqBody(sa, sb, kind, name, pos)
		}
		if a.k == 'g' && b.k == 'g' {
			k := c.Fresh("sk", SInt, nil, nil)
			s2 := st.clone()
			return s2.prove(c.Eq(s2.readArr(a.s.arr, k), s2.readArr(b.s.arr, k)), kind, name, pos)
		}
		return st.prove(v.equal(e, a, b), kind, name, pos)
	case "call":
		if m := st.x.U.spec.macros[e.name]; m != nil {
			return v.macro(e, m).prove0(m.body, kind, name, pos)
		}
		if e.name == "at" || e.name == "old" || e.name == "entry" {
			l := e.name
			i := 0
			if l == "at" {
				l = e.args[0].name
				i = 1
			}
			r := true
			v.at(l, e, func(n *ev) SVal {
				r = st.prove(n.bool(e.args[i]), kind, name, pos)
				return SVal{}
			})
			return r
		}
	case "id":
		if m := st.x.U.spec.macros[e.name]; m != nil && len(m.params) == 0 {
			if _, sh := v.env.get(e.name); !sh {
				n := *v
				n.env = nil
				return n.prove0(m.body, kind, name, pos)
			}
		}
	}
	return st.prove(v.bool(e), kind, name, pos)
}

func (st *State) proveSeqBody(sa, sb *Seq, kind, name, pos string) bool {
	c := st.x.c
	if n, ok := sb.n.Int64(); ok && n <= 64 {
		r := true
		for i := int64(0); i < n; i++ {
			r = st.prove(c.Eq(st.seqAt(sa, c.Int(i)), st.seqAt(sb, c.Int(i))), kind, name, pos) && r
		}
		return r
	}
	s2 := st.clone()
	k := c.Fresh("sk", SInt, nil, nil)
	s2.fact(c.Le(c.zero, k))
	s2.fact(c.Lt(k, sb.n))
	if s2.dead || !s2.feasible(c.T) {
		return true
	}
	return s2.proveAtIndex(sa, sb, k, kind, name, pos)
}

// proveAtIndex proves equality of two sequences at index k, splitting on the undecided array reads.
func (st *State) proveAtIndex(sa, sb *Seq, k *Term, kind, name, pos string) bool {
	c := st.x.c
	g := c.Eq(st.seqAt(sa, k), st.seqAt(sb, k))
	return st.prove(g, kind, name, pos)
}

// assumeScalar adds e as a fact only when that needs no quantifier.
func (v *ev) assumeScalar(e *Expr) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); ok {
				return
			}
			panic(r)
		}
	}()
	if quantified(v.st.x.U.spec, e) {
		return
	}
	t := v.bool(e)
	if hasForall(t, map[int]bool{}) {
		return
	}
	v.st.fact(t)
}

func hasForall(t *Term, seen map[int]bool) bool {
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	if t.op == OForall {
		return true
	}
	for _, a := range t.args {
		if hasForall(a, seen) {
			return true
		}
	}
	return false
}

func quantified(sp *Spec, e *Expr) bool {
	if e == nil {
		return false
	}
	if e.op == "forall" || e.op == "exists" {
		return true
	}
	if e.op == "call" {
		if m := sp.macros[e.name]; m != nil && quantified(sp, m.body) {
			return true
		}
	}
	for _, a := range e.args {
		if quantified(sp, a) {
			return true
		}
	}
	return false
}

func (v *ev) assume(e *Expr) {
	st := v.st
	c := st.x.c
	if st.dead {
		return
	}
	switch e.op {
	case "&&":
		v.assume(e.args[0])
		v.assume(e.args[1])
		return
	case "==>":
		h := st.simpBool(v.bool(e.args[0]))
		if h == c.F {
			return
		}
		if h == c.T {
			v.assume(e.args[1])
			return
		}
	case "call":
		if m := st.x.U.spec.macros[e.name]; m != nil {
			v.macro(e, m).assume(m.body)
			return
		}
	case "id":
		if m := st.x.U.spec.macros[e.name]; m != nil && len(m.params) == 0 {
			if _, sh := v.env.get(e.name); !sh {
				n := *v
				n.env = nil
				n.assume(m.body)
				return
			}
		}
	}
	t := v.bool(e)
	st.fact(t)
}

// ---- assignment

func (v *ev) assign(l *Expr, val SVal) {
	st := v.st
	x := st.x
	if l.op == "id" {
		if _, ok := v.fr.senv[l.name]; ok && v.env.vars != nil {
			old := v.fr.senv[l.name]
			if old.k == 'v' && val.k != 's' && old.v.T != nil && old.v.T != tInt && old.v.T != tBool {
				val = SVal{k: 'v', v: v.conv(l, val, old.v.T)}
			}
			v.fr.senv[l.name] = val
			return
		}
	}
	if key, kind, ref, ok := v.ghostOf(l); ok {
		v.ghostWrite(key, kind, ref, val, l)
		return
	}
	if l.op == "index" {
		if key, kind, ref, ok := v.ghostOf(l.args[0]); ok {
			h := x.heapMap(st, key, true, ghostLeaf(kind))
			a := st.readHMArr(h, ref)
			st.noteWrite(key, ref)
			if val.k == 'n' {
				val = x.mi(x.c.zero)
			}
			i := v.one(l, v.eval(l.args[1]))
			st.writeHM(h, ref, nil, &Arr{kind: 's', parent: a, idx: i, val: v.one(l, val), sort: h.sort})
			return
		}
		b := v.eval(l.args[0])
		if b.k == 'v' {
			if mt, ok := under(b.v.T).(*types.Map); ok {
				x.mapSet(st, b.v, v.conv(l, v.eval(l.args[1]), mt.Key()), v.conv(l, val, mt.Elem()))
				return
			}
		}
	}
	if l.op == "call" && l.name == "bytes" {
		b := v.eval(l.args[0])
		if b.k == 'v' && isSlice(b.v.T) {
			el := under(b.v.T).(*types.Slice).Elem()
			st.bindRegion(b.v, el, v.toSeq(l, val))
			return
		}
	}
	if l.op == "call" && l.name == "str" && l.args[0].op == "id" {
		s := v.toSeq(l, val)
		cur := v.fr.senv[l.args[0].name]
		v.fr.senv[l.args[0].name] = SVal{k: 'v', v: st.newStrT(&StrObj{arr: st.seqArr(s)}, s.n, cur.v.T)}
		return
	}
	if lc, t, ok := v.loc(l); ok {
		st.store(lc, v.conv(l, val, t))
		return
	}
	serr(l, "cannot assign")
}

// bindRegion overwrites the elements of a slice with a sequence.
func (st *State) bindRegion(b Val, el types.Type, s *Seq) {
	c := st.x.c
	lf := st.x.leaves(el)[0]
	a := st.getArr(b.L[0], el, lf)
	off := b.L[1]
	st.setArr(b.L[0], el, lf, &Arr{kind: 'c', parent: a, lo: off, n: b.L[2], sort: lf.Sort, f: func(st *State, k *Term) *Term { return st.seqAt(s, c.Sub(k, off)) }})
}

// describeRegion records another description of the elements of a slice.
func (st *State) describeRegion(b Val, el types.Type, s *Seq) {
	c := st.x.c
	lf := st.x.leaves(el)[0]
	a := st.getArr(b.L[0], el, lf)
	off := b.L[1]
	st.setArr(b.L[0], el, lf, &Arr{kind: 'e', parent: a, lo: off, n: b.L[2], sort: lf.Sort, f: func(st *State, k *Term) *Term { return st.seqAt(s, c.Sub(k, off)) }})
}

// havocLV forgets the value of an lvalue.
func (v *ev) havocLV(l *Expr) {
	st := v.st
	x := st.x
	c := x.c
	if l.op == "id" {
		if old, ok := v.fr.senv[l.name]; ok {
			if old.k == 's' {
				v.fr.senv[l.name] = v.freshSeq(l.name)
			} else {
				v.fr.senv[l.name] = SVal{k: 'v', v: v.freshOf(l.name, old.v.T)}
			}
			return
		}
	}
	if key, kind, ref, ok := v.ghostOf(l); ok {
		switch kind {
		case "int", "ptr", "bool":
			lf := ghostLeaf(kind)
			v.ghostWrite(key, kind, ref, SVal{k: 'v', v: Val{tInt, []*Term{c.Fresh(key, lf.Sort, nil, nil)}}}, l)
		case "seq", "iseq":
			lf := ghostLeaf(kind)
			u := c.DeclUF(c.FreshName(key), 1, SInt, lf.Lo, lf.Hi)
			n := c.Fresh(key+".len", SInt, big0, maxLen)
			v.ghostWrite(key, kind, ref, SVal{k: 's', s: &Seq{&Arr{kind: 'u', uf: u, sort: SInt}, c.zero, n}}, l)
		case "map", "bmap":
			lf := ghostLeaf(kind)
			u := c.DeclUF(c.FreshName(key), 1, lf.Sort, nil, nil)
			h := x.heapMap(st, key, true, lf)
			st.noteWrite(key, ref)
			st.writeHM(h, ref, nil, &Arr{kind: 'u', uf: u, sort: lf.Sort})
		}
		return
	}
	if l.op == "call" && l.name == "bytes" {
		b := v.eval(l.args[0])
		el := under(b.v.T).(*types.Slice).Elem()
		for _, lf := range x.leaves(el) {
			u := c.DeclUF(c.FreshName("mem"), 1, lf.Sort, lf.Lo, lf.Hi)
			a := st.getArr(b.v.L[0], el, lf)
			st.setArr(b.v.L[0], el, lf, &Arr{kind: 'c', parent: a, lo: b.v.L[1], n: b.v.L[2], sort: lf.Sort, f: func(st *State, k *Term) *Term { return c.App(u, k) }})
		}
		return
	}
	if l.op == "call" && l.name == "all" {
		// all(T.f): the component of every object
		v.havocAll(l.args[0])
		return
	}
	if l.op == "allfields" {
		b := v.eval(l.args[0])
		t := under(b.v.T).(*types.Pointer).Elem()
		st.store(x.ptrLoc(b.v), v.freshOf("hv", t))
		return
	}
	if l.op == "index" {
		if key, kind, ref, ok := v.ghostOf(l.args[0]); ok {
			lf := ghostLeaf(kind)
			h := x.heapMap(st, key, true, lf)
			a := st.readHMArr(h, ref)
			st.noteWrite(key, ref)
			st.writeHM(h, ref, nil, &Arr{kind: 's', parent: a, idx: v.one(l, v.eval(l.args[1])), val: c.Fresh("hv", lf.Sort, lf.Lo, lf.Hi), sort: h.sort})
			return
		}
		b := v.eval(l.args[0])
		if b.k == 'v' {
			if mt, ok := under(b.v.T).(*types.Map); ok {
				k := v.conv(l, v.eval(l.args[1]), mt.Key())
				x.mapSet(st, b.v, k, v.freshOf("hv", mt.Elem()))
				return
			}
		}
	}
	if lc, t, ok := v.loc(l); ok {
		st.store(lc, v.freshOf("hv", t))
		return
	}
	serr(l, "cannot havoc")
}

func (v *ev) freshOf(name string, t types.Type) Val {
	x := v.st.x
	if t == tInt {
		return Val{t, []*Term{x.c.Fresh(name, SInt, nil, nil)}}
	}
	if isString(t) {
		// a fresh string with its own opaque content
		return v.st.freshStr(name, t)
	}
	return v.st.fresh(name, t, false)
}

func (st *State) freshStr(name string, t types.Type) Val {
	c := st.x.c
	u := c.DeclUF(c.FreshName("str."+name), 1, SInt, big0, big255)
	return st.newStrT(&StrObj{arr: &Arr{kind: 'u', uf: u, sort: SInt}}, c.Fresh(name+".len", SInt, big0, maxLen), t)
}

func (v *ev) freshSeq(name string) SVal {
	c := v.st.x.c
	u := c.DeclUF(c.FreshName("seq."+name), 1, SInt, big0, big255)
	return SVal{k: 's', s: &Seq{&Arr{kind: 'u', uf: u, sort: SInt}, c.zero, c.Fresh(name+".len", SInt, big0, maxLen)}}
}

func (v *ev) havocAll(e *Expr) {
	st := v.st
	nm := flatName(e)
	i := strings.LastIndex(nm, ".")
	if i < 0 {
		serr(e, "T.f expected")
	}
	pre := nm[:i] + "|." + nm[i+1:]
	st.x.touch(st, nm[:i], nm[i+1:])
	gpre := "gf:" + nm
	for k := range st.x.keyLeaf {
		if k == pre || strings.HasPrefix(k, pre) && !isIdent(k[len(pre)]) || k == gpre || strings.HasPrefix(k, gpre+"#") {
			st.havocKey(k)
		}
	}
}

func isIdent(b byte) bool {
	return b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
}

// havocKey forgets a whole heap component.
func (st *State) havocKey(k string) {
	x := st.x
	lf := x.keyLeaf[k]
	h := st.heap[k]
	if h == nil {
		h = x.initHeap[k]
	}
	n := &HM{key: k, isArr: h.isArr, sort: h.sort, lo: lf.Lo, hi: lf.Hi, cut: st.na}
	ar := 1
	if h.isArr {
		ar = 2
	}
	n.uf = x.c.DeclUF(x.c.FreshName("H."+k), ar, lf.Sort, lf.Lo, lf.Hi)
	st.noteWriteAll(k)
	st.heap[k] = n
}

// touch makes the components of a field (or ghost field) known.
func (x *Exec) touch(st *State, tn, f string) {
	if strings.HasPrefix(f, "$") {
		g := x.U.spec.ghosts[tn+"."+f]
		if g == nil {
			panic(specErr{"no ghost field " + tn + "." + f})
		}
		key := "gf:" + tn + "." + f
		switch g.kind {
		case "seq", "iseq":
			x.heapMap(st, key+"#a", true, ghostLeaf(g.kind))
			x.heapMap(st, key+"#n", false, lenLeaf)
		default:
			x.heapMap(st, key, g.kind == "map" || g.kind == "bmap", ghostLeaf(g.kind))
		}
		return
	}
	t := x.L.typ(&TypeX{k: "name", name: tn})
	s, ok := under(t).(*types.Struct)
	if !ok {
		panic(specErr{"not a struct: " + tn})
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			for _, lf := range x.leaves(s.Field(i).Type()) {
				l, lf2 := st.leafLoc(Loc{root: typeKey(t), ref: x.c.zero, path: "." + f}, lf)
				k, isArr := l.key(lf2.Path)
				x.heapMap(st, k, isArr, lf2)
			}
		}
	}
}

// sameFunc: both are closures of one function whose captured variables (compared by content) are equal.
func (x *Exec) sameFunc(st *State, a, b *Term) *Term {
	if a == b {
		return x.c.Bool(true)
	}
	f, ok := x.lookup(a).(*FnVal)
	g, ok2 := x.lookup(b).(*FnVal)
	if !ok || !ok2 || f.fn != g.fn {
		return x.c.Bool(false)
	}
	r := x.c.Bool(true)
	for i := range f.binds {
		t := f.fn.FreeVars[i].Type()
		u, w := f.binds[i], g.binds[i]
		u.T, w.T = t, t
		if p, ok := under(t).(*types.Pointer); ok && f.fn.Parent() != nil && u.L[0] != w.L[0] {
			u, w = st.load(x.ptrLoc(u), p.Elem()), st.load(x.ptrLoc(w), p.Elem())
		}
		r = x.c.And(r, st.valEq(u, w))
	}
	return r
}
