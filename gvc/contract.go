package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// A contract gives two scripts: one verifying the body against it, one standing for the body at call sites.

func (c *Contract) useScript(x *Exec, fn *ssa.Function) *Script {
	if s, ok := x.useMemo[c.key]; ok {
		return s
	}
	rn := resultNames(c, fn)
	s := &Script{name: "contract " + c.key, params: c.params, results: rn, pos: c.pos, con: c, use: true, fn: fn}
	for _, cl := range c.clauses {
		if cl.k == "requires" {
			n := cl.n
			if n == "" {
				n = cl.e.String()
			}
			s.ops = append(s.ops, SOp{k: "assert", name: "pre:" + c.key + "/" + n, e: cl.e, pos: cl.pos})
		}
	}
	s.ops = append(s.ops, SOp{k: "snap", name: "old"})
	if fn.Signature.Results().Len() > 0 {
		s.ops = append(s.ops, SOp{k: "hv-results"})
	}
	// forget first, then set
	for _, cl := range c.clauses {
		if cl.k == "havocs" {
			s.ops = append(s.ops, SOp{k: "havoc", es: cl.es, pos: cl.pos})
		}
	}
	useClauses(&s.ops, c.clauses)
	var es []*Expr
	for _, n := range rn {
		es = append(es, &Expr{op: "id", name: n, pos: c.pos})
	}
	s.ops = append(s.ops, SOp{k: "return", es: es, pos: c.pos})
	x.useMemo[c.key] = s
	return s
}

func resultNames(c *Contract, fn *ssa.Function) []string {
	var rn []string
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if i < len(c.results) {
			rn = append(rn, c.results[i])
		} else {
			rn = append(rn, fmt.Sprintf("result%d", i))
		}
	}
	return rn
}

func useClauses(ops *[]SOp, cls []*Clause) {
	for _, cl := range cls {
		switch cl.k {
		case "let":
			*ops = append(*ops, SOp{k: "let", name: cl.n, e: cl.e, pos: cl.pos})
		case "sets":
			*ops = append(*ops, SOp{k: "assign", lhs: cl.lhs, e: cl.e, pos: cl.pos})
		case "makes": // a new array of the given length
			*ops = append(*ops, SOp{k: "makes", lhs: cl.lhs, e: cl.e, pos: cl.pos})
		case "allocs": // a new array of the given length, any capacity and any content
			*ops = append(*ops, SOp{k: "makes", name: "cap", lhs: cl.lhs, e: cl.e, pos: cl.pos})
			*ops = append(*ops, SOp{k: "havoc", es: []*Expr{{op: "call", name: "bytes", args: []*Expr{cl.lhs}, pos: cl.pos}}, pos: cl.pos})
		case "ensures":
			*ops = append(*ops, SOp{k: "assume", e: cl.e, pos: cl.pos})
		case "case":
			br := len(*ops)
			*ops = append(*ops, SOp{k: "br", e: cl.e, pos: cl.pos})
			useClauses(ops, hoist(cl.a))
			j := len(*ops)
			*ops = append(*ops, SOp{k: "jmp"})
			(*ops)[br].to = len(*ops)
			useClauses(ops, hoist(cl.b))
			(*ops)[j].to = len(*ops)
		case "hv":
			*ops = append(*ops, SOp{k: "havoc", es: cl.es, pos: cl.pos})
		}
	}
}

// hoist puts the havocs of a case first.
func hoist(cls []*Clause) []*Clause {
	var a, b []*Clause
	for _, c := range cls {
		if c.k == "havocs" {
			n := *c
			n.k = "hv"
			a = append(a, &n)
		} else {
			b = append(b, c)
		}
	}
	return append(a, b...)
}

func verClauses(ops *[]SOp, key string, cls []*Clause) {
	for _, cl := range cls {
		switch cl.k {
		case "let":
			*ops = append(*ops, SOp{k: "let", name: cl.n, e: cl.e, pos: cl.pos})
		case "sets":
			e := &Expr{op: "==", args: []*Expr{cl.lhs, cl.e}, pos: cl.pos}
			*ops = append(*ops, SOp{k: "assert", name: "post:" + key + "/" + e.String(), e: e, pos: cl.pos})
		case "makes", "allocs":
			fn := func(n string, as ...*Expr) *Expr { return &Expr{op: "call", name: n, args: as, pos: cl.pos} }
			num := func() *Expr { return &Expr{op: "num", n: big.NewInt(0), pos: cl.pos} }
			for _, e := range []*Expr{
				{op: "==", args: []*Expr{fn("len", cl.lhs), cl.e}, pos: cl.pos},
				{op: "==", args: []*Expr{fn("cap", cl.lhs), cl.e}, pos: cl.pos},
				{op: "==", args: []*Expr{fn("off", cl.lhs), num()}, pos: cl.pos},
				fn("isnew", cl.lhs)} {
				if cl.k == "allocs" && e.args[0].name == "cap" {
					continue
				}
				*ops = append(*ops, SOp{k: "assert", name: "post:" + key + "/" + e.String(), e: e, pos: cl.pos})
			}
		case "ensures":
			n := cl.n
			if n == "" {
				n = cl.e.String()
			}
			*ops = append(*ops, SOp{k: "assert", name: "post:" + key + "/" + n, e: cl.e, pos: cl.pos})
		case "case":
			br := len(*ops)
			*ops = append(*ops, SOp{k: "br", e: cl.e, pos: cl.pos})
			verClauses(ops, key, cl.a)
			j := len(*ops)
			*ops = append(*ops, SOp{k: "jmp"})
			(*ops)[br].to = len(*ops)
			verClauses(ops, key, cl.b)
			(*ops)[j].to = len(*ops)
		}
	}
}

// verifyScript checks the body of fn against the contract.
func (c *Contract) verifyScript(x *Exec, fn *ssa.Function) *Script {
	s := &Script{name: c.key, pos: c.pos, con: c, fn: fn}
	if len(c.params) != len(fn.Params) {
		panic(specErr{fmt.Sprintf("%s: contract of %s has %d parameters, the function has %d", c.pos, c.key, len(c.params), len(fn.Params))})
	}
	var as []*Expr
	roots := map[string]bool{}
	for i, p := range c.params {
		t := fn.Params[i].Type()
		k := "symt"
		if pt, ok := under(t).(*types.Pointer); ok {
			rk := rootOf(pt.Elem())
			if !roots[rk] {
				roots[rk] = true
				k = "objt"
			}
		}
		s.ops = append(s.ops, SOp{k: k, name: p, gt: t, pos: c.pos})
		as = append(as, &Expr{op: "id", name: p, pos: c.pos})
	}
	for _, cl := range c.clauses {
		switch cl.k {
		case "abs":
			s.ops = append(s.ops, SOp{k: "assign", lhs: cl.lhs, e: cl.e, pos: cl.pos})
		case "requires", "rep", "assumes":
			s.ops = append(s.ops, SOp{k: "assume", e: cl.e, pos: cl.pos})
		}
	}
	for i, cl := range c.clauses {
		if cl.k == "split" {
			mk := func(op string, a ...*Expr) *Expr { return &Expr{op: op, args: a, pos: cl.pos} }
			k := &Expr{op: "id", name: fmt.Sprintf("$split%d", i), pos: cl.pos}
			a, b := cl.es[0], cl.es[1]
			s.ops = append(s.ops, SOp{k: "fork", name: k.name, es: []*Expr{a, mk("+", b, &Expr{op: "num", n: big.NewInt(1), pos: cl.pos})}, pos: cl.pos})
			s.ops = append(s.ops, SOp{k: "assume", e: mk("ite", mk("==", k, b), mk("||", mk("<", cl.e, a), mk("<=", b, cl.e)), mk("==", cl.e, k)), pos: cl.pos})
			if cl.e.op == "call" && cl.e.name == "len" && cl.e.args[0].op == "id" {
				s.ops = append(s.ops, SOp{k: "setlen", lhs: cl.e.args[0], e: cl.e, pos: cl.pos})
			}
		}
	}
	s.ops = append(s.ops, SOp{k: "snap", name: "old"})
	rn := resultNames(c, fn)
	s.ops = append(s.ops, SOp{k: "run", name: c.key, names: rn, es: as, pos: c.pos})
	for _, cl := range c.clauses {
		switch cl.k {
		case "abs":
			s.ops = append(s.ops, SOp{k: "assign", lhs: cl.lhs, e: cl.e, pos: cl.pos})
		case "rep":
			s.ops = append(s.ops, SOp{k: "assert", name: "rep:" + c.key + "/" + cl.e.String(), e: cl.e, pos: cl.pos})
		}
	}
	verClauses(&s.ops, c.key, c.clauses)
	s.ops = append(s.ops, SOp{k: "frame"})
	return s
}

type modTarget struct {
	key string
	all bool
	ref *Term
	lo  *Term // region, nil: whole
	n   *Term
	idx *Term
}

// targets lists what the clauses change when the cases listed in sides apply.
func targets(cls []*Clause, sides map[*Clause]bool, out *[]*Expr) {
	for _, cl := range cls {
		switch cl.k {
		case "havocs":
			*out = append(*out, cl.es...)
		case "sets", "makes":
			*out = append(*out, cl.lhs)
		case "allocs":
			if cl.lhs.op != "id" && cl.lhs.op != "name" && cl.lhs.op != "ident" {
				*out = append(*out, cl.lhs)
			}
		case "abs":
			*out = append(*out, cl.lhs)
		case "case":
			if sides[cl] {
				targets(cl.a, sides, out)
			} else {
				targets(cl.b, sides, out)
			}
		}
	}
}

// frameCheck splits by the cases of the contract.
func (x *Exec) frameCheck(st *State, f *Frame, con *Contract) {
	x.frameCases(st, con, con.clauses, map[*Clause]bool{}, func(st *State, sides map[*Clause]bool) {
		x.frameCheck1(st, st.top(), con, sides)
	})
}

func (x *Exec) frameCases(st *State, con *Contract, cls []*Clause, sides map[*Clause]bool, f func(*State, map[*Clause]bool)) {
	for i, cl := range cls {
		if cl.k != "case" {
			continue
		}
		cd := st.ev(st.top()).bool(cl.e)
		rest := cls[i+1:]
		for _, side := range []bool{true, false} {
			n := st.clone()
			t := cd
			br := cl.a
			if !side {
				t = x.c.Not(cd)
				br = cl.b
			}
			n.fact(t)
			if n.dead || !n.feasible(x.c.T) {
				continue
			}
			sd := map[*Clause]bool{}
			for k, v := range sides {
				sd[k] = v
			}
			sd[cl] = side
			x.frameCases(n, con, append(append([]*Clause{}, br...), rest...), sd, f)
		}
		return
	}
	f(st, sides)
}

// frameCheck1: everything the function changed is listed in its contract.
func (x *Exec) frameCheck1(st *State, f *Frame, con *Contract, sides map[*Clause]bool) {
	c := x.c
	old := f.snaps["old"]
	var es []*Expr
	targets(con.clauses, sides, &es)
	var mts []modTarget
	scratch := st.clone()
	scratch.heap = map[string]*HM{}
	for k, h := range old.heap {
		scratch.heap[k] = h
	}
	for _, e := range es {
		if e.op == "id" {
			if _, isVar := f.senv[e.name]; isVar {
				continue
			}
		}
		if e.op == "call" && e.name == "str" {
			continue
		}
		before := map[string]*HM{}
		for k, h := range scratch.heap {
			before[k] = h
		}
		sv := scratch.ev(scratch.top())
		sv.havocLV(e)
		for k, h := range scratch.heap {
			b := before[k]
			if b == nil {
				b = x.initHeap[k]
			}
			if h == b {
				continue
			}
			if b != nil && h.uf != b.uf {
				mts = append(mts, modTarget{key: k, all: true})
				continue
			}
			if h.w == nil || (b != nil && h.w == b.w) {
				continue
			}
			if h.w.ref == nil {
				mts = append(mts, modTarget{key: k, all: true})
				continue
			}
			m := modTarget{key: k, ref: h.w.ref}
			if a := h.w.arr; a != nil {
				if a.kind == 'c' {
					m.lo, m.n = a.lo, a.n
				} else if a.kind == 's' {
					m.idx = a.idx
				}
			}
			mts = append(mts, m)
		}
	}
	name := "frame:" + con.key
	o := x.oblig(name, "frame", con.pos)
	if st.mode == nil {
		o.Count++
		if o.By == "" {
			o.By = "simplifier"
		}
	}
	for k, h := range st.heap {
		b := old.heap[k]
		if b == nil {
			b = x.initHeap[k]
		}
		if h == b {
			continue
		}
		all := false
		for _, m := range mts {
			if m.key == k && m.all {
				all = true
			}
		}
		if all {
			continue
		}
		if h.uf != b.uf {
			st.prove(c.F, "frame", name+"/"+k, con.pos)
			continue
		}
		for w := h.w; w != nil; w = w.next {
			if w == b.w {
				break
			}
			if w.ref == nil && w.hi < int64(-old.na) {
				continue
			}
			if w.ref == nil {
				st.prove(c.F, "frame", name+"/"+k, con.pos)
				continue
			}
			if n, ok := w.ref.Int64(); ok && n < 0 && n > -(1<<50) && n < int64(-old.na) {
				continue
			}
			// allowed?
			cond := c.F
			var regs []modTarget
			whole := false
			for _, m := range mts {
				if m.key != k {
					continue
				}
				same := c.Eq(m.ref, w.ref)
				if m.lo == nil && m.idx == nil {
					if st.simpBool(same) == c.T {
						whole = true
					}
					cond = c.Or(cond, same)
				} else {
					regs = append(regs, m)
				}
			}
			if whole {
				continue
			}
			if h.isArr {
				s2 := st.clone()
				kx := c.Fresh("fk", SInt, nil, nil)
				s2.fact(c.Not(cond))
				for _, m := range regs {
					var in *Term
					if m.lo != nil {
						in = c.And(c.Le(m.lo, kx), c.Lt(kx, c.Add(m.lo, m.n)))
					} else {
						in = c.Eq(kx, m.idx)
					}
					s2.fact(c.Not(c.And(c.Eq(m.ref, w.ref), in)))
				}
				if s2.dead {
					continue
				}
				s2.prove(c.Eq(s2.readArr(s2.readHMArr(h, w.ref), kx), s2.readArr(s2.readHMArr(b, w.ref), kx)), "frame", name+"/"+k, con.pos)
				continue
			}
			st.prove(c.Or(cond, c.Eq(st.readHM(h, w.ref), st.readHM(b, w.ref))), "frame", name+"/"+k, con.pos)
		}
	}
}
