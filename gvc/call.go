package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fnKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if p := fn.Parent(); p != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			return fnKey(p) + n[i:]
		}
		return fnKey(p) + "$" + n
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Name()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pk = o.Pkg().Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Name()
			}
			return pk + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return pk + "." + fn.Name()
}

func (x *Exec) resolveCall(st *State, f *Frame, call *ssa.CallCommon, in ssa.Instruction) (*ssa.Function, []Val, *Val) {
	var args []Val
	if call.IsInvoke() {
		recv := st.val(f, call.Value)
		recv.T = call.Value.Type()
		for _, a := range call.Args {
			v := st.val(f, a)
			v.T = a.Type()
			args = append(args, v)
		}
		if n, ok := recv.L[0].Int64(); ok {
			if n == 0 {
				st.prove(x.c.F, "safety", f.obName("method-on-nil-interface", in), x.posOf(in.Pos()))
				st.dead = true
				return nil, nil, nil
			}
			t := x.tagType[n]
			if fn := x.L.prog.LookupMethod(t, call.Method.Pkg(), call.Method.Name()); fn != nil {
				return fn, append([]Val{st.unbox(recv.L[1], t)}, args...), nil
			}
		}
		st.prove(x.c.Not(x.c.Eq(recv.L[0], x.c.zero)), "safety", f.obName("method-on-nil-interface", in), x.posOf(in.Pos()))
		return nil, append([]Val{recv}, args...), &recv
	}
	for _, a := range call.Args {
		v := st.val(f, a)
		v.T = a.Type()
		args = append(args, v)
	}
	if _, ok := call.Value.(*ssa.Builtin); ok {
		return nil, args, nil
	}
	if fn, ok := call.Value.(*ssa.Function); ok {
		return fn, args, nil
	}
	v := st.val(f, call.Value)
	v.T = call.Value.Type()
	if fv, ok := x.lookup(v.L[0]).(*FnVal); ok {
		return fv.fn, args, &v
	}
	st.prove(x.c.Not(x.c.Eq(v.L[0], x.c.zero)), "safety", f.obName("call-of-nil-function", in), x.posOf(in.Pos()))
	return nil, args, &v
}

func (x *Exec) callInstr(st *State, f *Frame, in *ssa.Call) []*State {
	fn, args, dyn := x.resolveCall(st, f, &in.Call, in)
	if st.dead {
		return nil
	}
	return x.invoke(st, f, &in.Call, fn, args, dyn, in, in)
}

// sigKey names calls of unknown function values by their signature.
func sigKey(t types.Type) string {
	s, ok := under(t).(*types.Signature)
	if !ok {
		return "dyn:?"
	}
	var a []string
	for i := 0; i < s.Params().Len(); i++ {
		a = append(a, typeKey(s.Params().At(i).Type()))
	}
	return "dyn:func(" + strings.Join(a, ", ") + ")"
}

// resKey is the result part of a signature, for function types that differ in nothing else.
func resKey(rt *types.Tuple) string {
	var a []string
	for i := 0; i < rt.Len(); i++ {
		a = append(a, typeKey(rt.At(i).Type()))
	}
	return "(" + strings.Join(a, ", ") + ")"
}

func (x *Exec) invoke(st *State, f *Frame, call *ssa.CallCommon, fn *ssa.Function, args []Val, dyn *Val, in ssa.Instruction, ret ssa.Value) []*State {
	f.call = ret
	if b, ok := call.Value.(*ssa.Builtin); ok && fn == nil && dyn == nil {
		return x.builtin(st, f, b, args, in, ret)
	}
	key := ""
	rt := call.Signature().Results()
	switch {
	case fn != nil:
		key = fnKey(fn)
	case call.IsInvoke():
		t := call.Value.Type()
		n := typeKey(t)
		if nn, ok := types.Unalias(t).(*types.Named); ok && nn.Obj().Pkg() == nil {
			n = nn.Obj().Name()
		}
		key = n + "." + call.Method.Name()
	default:
		key = sigKey(call.Value.Type())
		if full := key + " " + resKey(rt); x.U.spec.models[full] != nil {
			key = full
		}
		args = append([]Val{*dyn}, args...)
	}
	return x.dispatch(st, f, key, fn, args, dyn, rt, in.Pos())
}

func (x *Exec) dispatch(st *State, f *Frame, key string, fn *ssa.Function, args []Val, dyn *Val, rt *types.Tuple, pos token.Pos) []*State {
	sp := x.U.spec
	if m := sp.models[key]; m != nil {
		x.usedMod[key] = true
		st.pushScript(m, args, rt, pos)
		return nil
	}
	if c := sp.contracts[key]; c != nil && !x.U.demoted[key] && !x.U.isTarget(key) && fn != nil {
		x.usedCon[key] = true
		st.pushScript(c.useScript(x, fn), args, rt, pos)
		return nil
	}
	if fn != nil && !sp.opaque[key] {
		if g, ok := intrinsics[key]; ok {
			return g(x, st, f, args, rt)
		}
		if x.L.inlinable(fn) || sp.inline[key] {
			if len(fn.Blocks) > 0 {
				if len(st.frames) > 80 {
					x.unsupported(st, "recursion in "+key)
					return nil
				}
				var binds []Val
				if dyn != nil {
					if fv, ok := x.lookup(dyn.L[0]).(*FnVal); ok && fv.fn == fn {
						binds = fv.binds
					}
				}
				if len(fn.FreeVars) > len(binds) {
					x.unsupported(st, "closure without its bindings: "+key)
					return nil
				}
				x.inlined[key] = true
				st.pushGo(fn, args, binds)
				return nil
			}
		}
	}
	// unknown: arbitrary results, arbitrary writes to slice and pointer arguments
	x.unknownCalls[key] = true
	x.assume["call of "+key+" (outside the verified code): arbitrary results, writes only to the memory of its byte-slice arguments"] = true
	for _, a := range args {
		if isSlice(a.T) {
			el := under(a.T).(*types.Slice).Elem()
			for _, lf := range x.leaves(el) {
				if _, _, _, nested := splitArr(lf.Path); nested {
					continue
				}
				u := x.c.DeclUF(x.c.FreshName("mem"), 1, lf.Sort, lf.Lo, lf.Hi)
				ar := st.getArr(a.L[0], el, lf)
				st.setArr(a.L[0], el, lf, &Arr{kind: 'c', parent: ar, lo: a.L[1], n: a.L[2], sort: lf.Sort, f: func(st *State, k *Term) *Term { return x.c.App(u, k) }})
			}
		}
	}
	st.deliver(f, st.freshResults(key, rt))
	return nil
}

func (st *State) freshResults(key string, rt *types.Tuple) []Val {
	var res []Val
	for i := 0; i < rt.Len(); i++ {
		t := rt.At(i).Type()
		if isString(t) {
			res = append(res, st.freshStr("r."+key, t))
		} else {
			res = append(res, st.fresh("r."+key, t, false))
		}
	}
	return res
}

func (x *Exec) builtin(st *State, f *Frame, b *ssa.Builtin, args []Val, in ssa.Instruction, ret ssa.Value) []*State {
	c := x.c
	one := func(t *Term) []*State {
		ty := types.Type(types.Typ[types.Int])
		if ret != nil {
			ty = ret.Type()
		}
		st.deliver(f, []Val{{ty, []*Term{t}}})
		return nil
	}
	switch b.Name() {
	case "len", "cap":
		a := args[0]
		switch u := under(a.T).(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return one(a.L[3])
			}
			return one(a.L[2])
		case *types.Basic:
			return one(a.L[2])
		case *types.Array:
			return one(c.Int(u.Len()))
		case *types.Pointer:
			return one(c.Int(under(u.Elem()).(*types.Array).Len()))
		case *types.Map:
			n := x.mapLen(st, a)
			return one(n)
		default:
			t := c.Fresh("chanlen", SInt, big0, maxLen)
			return one(t)
		}
	case "append":
		return x.appendB(st, f, args, ret)
	case "copy":
		dst, src := args[0], args[1]
		el := under(dst.T).(*types.Slice).Elem()
		n := dst.L[2]
		sn := src.L[2]
		cd := st.decide(c.Le(n, sn))
		m := c.Ite(cd, n, sn)
		if cd != c.T && cd != c.F {
			if st.valid(c.Le(n, sn), 500) {
				m = n
				st.fact(c.Le(n, sn))
			} else if st.valid(c.Le(sn, n), 500) {
				m = sn
				st.fact(c.Le(sn, n))
			}
		}
		st.copyRegion(dst, src, el, m)
		return one(m)
	case "delete":
		if !x.guardMap(st, f, in, args[0], true) {
			return nil
		}
		x.mapDelete(st, args[0], args[1])
		st.deliver(f, nil)
		return nil
	case "close", "print", "println":
		st.deliver(f, nil)
		return nil
	case "recover":
		st.deliver(f, []Val{x.zero(ret.Type())})
		return nil
	case "ssa:wrapnilchk":
		st.deliver(f, []Val{args[0]})
		return nil
	case "min", "max":
		r := args[0].L[0]
		for _, a := range args[1:] {
			cd := c.Le(r, a.L[0])
			if b.Name() == "max" {
				cd = c.Le(a.L[0], r)
			}
			r = c.Ite(st.decide(cd), r, a.L[0])
		}
		return one(r)
	case "clear":
		if isSlice(args[0].T) {
			el := under(args[0].T).(*types.Slice).Elem()
			for _, lf := range x.leaves(el) {
				a := st.getArr(args[0].L[0], el, lf)
				so := lf.Sort
				st.setArr(args[0].L[0], el, lf, &Arr{kind: 'c', parent: a, lo: args[0].L[1], n: args[0].L[2], sort: so, f: func(*State, *Term) *Term { return x.zeroOf(so) }})
			}
			st.deliver(f, nil)
			return nil
		}
	}
	x.unsupported(st, "builtin "+b.Name())
	return nil
}

func (x *Exec) mapLen(st *State, m Val) *Term {
	c := x.c
	return c.Ite(c.Eq(m.L[0], c.zero), c.zero, st.readHM(x.mapCard(st, m.T), m.L[0]))
}

// copyRegion copies the first n elements of src over dst (memmove semantics: the source is read first).
func (st *State) copyRegion(dst, src Val, el types.Type, n *Term) {
	x := st.x
	c := x.c
	if n == c.zero {
		return
	}
	for _, lf := range x.leaves(el) {
		so := src.L[1]
		do := dst.L[1]
		var rd func(st *State, k *Term) *Term
		if isString(src.T) {
			s := st.strSeq(Val{src.T, []*Term{src.L[0], c.zero, src.L[2]}})
			arr := s.arr
			so = c.Add(so, s.off)
			rd = func(st *State, k *Term) *Term { return st.readArr(arr, k) }
		} else {
			sa := st.getArr(src.L[0], el, lf)
			rd = func(st *State, k *Term) *Term { return st.readArr(sa, k) }
		}
		da := st.getArr(dst.L[0], el, lf)
		sov := so
		st.setArr(dst.L[0], el, lf, &Arr{kind: 'c', parent: da, lo: do, n: n, sort: lf.Sort, f: func(st *State, k *Term) *Term {
			return rd(st, c.Add(sov, c.Sub(k, do)))
		}})
	}
}

func (x *Exec) appendB(st *State, f *Frame, args []Val, ret ssa.Value) []*State {
	c := x.c
	s, t := args[0], args[1]
	el := under(s.T).(*types.Slice).Elem()
	tn := t.L[2]
	nl := c.Add(s.L[2], tn)
	inPlace := func(st *State) {
		f := st.top()
		dst := Val{s.T, []*Term{s.L[0], c.Add(s.L[1], s.L[2]), tn, tn}}
		if isString(t.T) || true {
			st.copyRegion(dst, t, el, tn)
		}
		st.deliver(f, []Val{{ret.Type(), []*Term{s.L[0], s.L[1], nl, s.L[3]}}})
	}
	grow := func(st *State) {
		f := st.top()
		ref := st.alloc()
		cp := c.Fresh("newcap", SInt, big0, maxLen)
		st.fact(c.Le(nl, cp))
		d0 := Val{s.T, []*Term{ref, c.zero, nl, cp}}
		st.copyRegion(d0, s, el, s.L[2])
		st.copyRegion(Val{s.T, []*Term{ref, s.L[2], tn, tn}}, t, el, tn)
		st.deliver(f, []Val{{ret.Type(), d0.L}})
	}
	fits := c.Le(nl, s.L[3])
	a, b := st.fork(fits, "")
	var more []*State
	if a != nil {
		inPlace(a)
	}
	if b != nil {
		grow(b)
		if a != nil {
			more = append(more, b)
		}
	}
	return more
}

// ---- guards

func (x *Exec) guard(st *State, f *Frame, in ssa.Instruction, l Loc, write bool) bool {
	gs := x.U.spec.guards
	if len(gs) == 0 {
		return true
	}
	// every field on the way from the object to the place accessed, so that a guard on a field
	// of a struct that is embedded in the object counts as well
	path := l.path
	t := types.Type(nil)
	owner := l.root
	for strings.HasPrefix(path, ".") {
		p := path[1:]
		path = ""
		if i := strings.IndexAny(p, ".[#"); i >= 0 {
			p, path = p[:i], p[i:]
		}
		k := owner + "." + p
		for _, g := range []*Guard{gs[k], gs[k+"!w"]} {
			if g == nil || g.write && !write {
				continue
			}
			if f.fn.Name() == "init" || x.U.noGuard {
				return true
			}
			x.checkGuard(st, f, in, g, Val{types.NewPointer(x.L.typ(&TypeX{k: "name", name: l.root})), []*Term{l.ref}})
		}
		if t == nil {
			t = x.L.typ(&TypeX{k: "name", name: l.root})
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			break
		}
		t = nil
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == p {
				t = u.Field(i).Type()
			}
		}
		if t == nil {
			break
		}
		owner = typeKey(t)
	}
	return !st.dead
}

func (x *Exec) guardMap(st *State, f *Frame, in ssa.Instruction, m Val, write bool) bool {
	k := "map:" + strings.ReplaceAll(typeKey(m.T), "interface{}", "any")
	for _, g := range []*Guard{x.U.spec.guards[k], x.U.spec.guards[k+"!w"]} {
		if g != nil && (!g.write || write) {
			x.checkGuard(st, f, in, g, m)
		}
	}
	return !st.dead
}

// reached notes that an assertion of a contract file was met (for finding assertions that decide nothing).
func reached(pos string) {
	if p := os.Getenv("GVC_REACH"); p != "" {
		if w, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintln(w, pos)
			w.Close()
		}
	}
}

func (x *Exec) checkGuard(st *State, f *Frame, in ssa.Instruction, g *Guard, p Val) {
	reached("guard " + g.target)
	v := &ev{st: st, env: &Env{vars: map[string]SVal{g.param: {k: 'v', v: p}}}, fr: &Frame{}}
	v.prove(g.e, "guard", f.obName("guard:"+g.target, in), x.posOf(in.Pos()))
}

// ---- scripts as frames

func (st *State) pushScript(s *Script, args []Val, rt *types.Tuple, pos token.Pos) *Frame {
	f := &Frame{sc: s, senv: map[string]SVal{}, snaps: map[string]*Snap{}, rt: rt, callPos: st.x.posOf(pos)}
	for i, n := range s.params {
		if i < len(args) {
			f.senv[n] = SVal{k: 'v', v: args[i]}
		}
	}
	if len(s.params) > len(args) {
		panic(specErr{s.pos + ": " + s.name + " has more parameters than the call has arguments"})
	}
	st.frames = append(st.frames, f)
	return f
}

func (st *State) scriptDeliver(p *Frame, res []Val) {
	for i, n := range p.outs {
		if i < len(res) {
			p.senv[n] = SVal{k: 'v', v: res[i]}
		}
	}
	p.outs = nil
	p.spc++
}

func (x *Exec) stepScript(st *State, f *Frame) (more []*State) {
	s := f.sc
	if f.spc >= len(s.ops) {
		st.scriptReturn(f, nil)
		return nil
	}
	o := s.ops[f.spc]
	v := st.ev(f)
	if x.debugScript {
		fmt.Printf("  [%s %d] %s %s %s\n", s.name, f.spc, o.k, o.name, o.e)
	}
	switch o.k {
	case "let":
		val := v.eval(o.e)
		if val.k == 'v' && val.v.T == nil {
			serr(o.e, "no value")
		}
		f.senv[o.name] = v.frozen(val)
	case "assign":
		v.assign(o.lhs, v.frozen(v.eval(o.e)))
	case "makes":
		n := v.int(o.e)
		lv := v.eval(o.lhs)
		m := n
		if o.name == "cap" {
			m = x.c.Fresh("cap", SInt, big0, maxLen)
			st.fact(x.c.Le(n, m))
		}
		v.assign(o.lhs, SVal{k: 'v', v: Val{lv.v.T, []*Term{st.alloc(), x.c.zero, n, m}}})
	case "setlen": // a length known to be constant becomes one
		sv := f.senv[o.lhs.name]
		if sv.k == 'v' && len(sv.v.L) == 4 {
			if lo, hi := st.bounds(sv.v.L[2]); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
				l := append([]*Term{}, sv.v.L...)
				l[2] = x.c.Big(lo)
				f.senv[o.lhs.name] = SVal{k: 'v', v: Val{sv.v.T, l}}
			}
		}
	case "sym":
		t := x.L.typ(o.typ)
		val := st.fresh(o.name, t, true)
		if isString(t) {
			val = st.freshStr(o.name, t)
		}
		f.senv[o.name] = SVal{k: 'v', v: val}
	case "any":
		t := x.L.typ(o.typ)
		f.senv[o.name] = SVal{k: 'v', v: v.freshOf(o.name, t)}
	case "new":
		t := x.L.typ(o.typ)
		f.senv[o.name] = SVal{k: 'v', v: Val{types.NewPointer(t), []*Term{st.alloc()}}}
	case "symt":
		val := st.fresh(o.name, o.gt, true)
		if isString(o.gt) {
			val = st.freshStr(o.name, o.gt)
		}
		f.senv[o.name] = SVal{k: 'v', v: val}
	case "obj", "objt":
		t := o.gt
		if t == nil {
			t = types.NewPointer(x.L.typ(o.typ))
		}
		ok := fmt.Sprintf("%s|%d|%d", s.name, f.spc, len(st.frames))
		if x.objs[ok] == nil {
			x.objN++
			x.objs[ok] = x.c.Int(1<<40 + x.objN)
		}
		f.senv[o.name] = SVal{k: 'v', v: Val{t, []*Term{x.objs[ok]}}}
	case "assume":
		v.assume(o.e)
		if st.dead || len(st.pc) > 0 && !st.feasible(x.c.T) {
			st.dead = true
			return nil
		}
	case "assert":
		if len(st.frames) == 1 && !st.claim() {
			return nil
		}
		n := o.name
		if n == "" {
			n = s.name + "/" + o.e.String()
		}
		reached(o.pos)
		pos := o.pos
		if f.callPos != "" {
			pos = f.callPos + " (" + o.pos + ")"
		}
		v.prove(o.e, "assert", n, pos)
		if st.dead {
			return nil
		}
	case "havoc":
		for _, e := range o.es {
			v.havocLV(e)
		}
	case "br":
		cd := v.bool(o.e)
		a, b := st.fork(cd, "")
		if a != nil {
			a.top().spc++
		}
		if b != nil {
			b.top().spc = o.to
			if a != nil {
				return []*State{b}
			}
		}
		return nil
	case "jmp":
		f.spc = o.to
		return nil
	case "choose":
		for _, t := range o.tos[1:] {
			n := st.clone()
			n.mix(t)
			n.top().spc = t
			more = append(more, n)
		}
		f.spc = o.tos[0]
		st.mix(o.tos[0])
		return more
	case "fork":
		lo, ok1 := v.int(o.es[0]).Int64()
		hi, ok2 := v.int(o.es[1]).Int64()
		if !ok1 || !ok2 {
			serr(o.es[0], "fork needs constant bounds")
		}
		for k := lo + 1; k < hi; k++ {
			n := st.clone()
			n.mix(int(k))
			n.top().senv[o.name] = x.mi(x.c.Int(k))
			n.top().spc++
			more = append(more, n)
		}
		st.mix(int(lo))
		f.senv[o.name] = x.mi(x.c.Int(lo))
	case "return":
		var res []SVal
		for _, e := range o.es {
			res = append(res, v.eval(e))
		}
		st.scriptReturn(f, res)
		return nil
	case "stop":
		st.dead = true
		x.ends++
		if st.mode == nil {
			x.liveEnd = true
		}
		return nil
	case "fail":
		pos := o.pos
		if f.callPos != "" {
			pos = f.callPos + " (" + o.pos + ")"
		}
		st.prove(x.c.F, "assert", o.name, pos)
		st.dead = true
		return nil
	case "snap":
		f.snaps[o.name] = st.snap()
	case "trace":
		st.trace = append(st.trace, o.name)
	case "call", "run":
		return x.scriptCall(st, f, o)
	case "frame":
		x.frameCheck(st, f, s.con)
	case "hv-results":
		fn := s.fn
		rs := fn.Signature.Results()
		for i, n := range s.results {
			f.senv[n] = SVal{k: 'v', v: v.freshOf(n, rs.At(i).Type())}
		}
	default:
		panic(specErr{o.pos + ": statement " + o.k})
	}
	if !st.dead {
		f.spc++
	}
	return more
}

func (st *State) scriptReturn(f *Frame, res []SVal) {
	x := st.x
	var out []Val
	v := st.ev(f)
	if f.rt != nil {
		if len(res) == 0 && f.rt.Len() > 0 && len(f.sc.results) == f.rt.Len() {
			for _, n := range f.sc.results {
				s, ok := f.senv[n]
				if !ok {
					panic(specErr{f.sc.pos + ": result " + n + " of " + f.sc.name + " not set"})
				}
				res = append(res, s)
			}
		}
		if len(res) != f.rt.Len() {
			panic(specErr{f.sc.pos + ": " + f.sc.name + ": wrong number of results"})
		}
		for i, s := range res {
			out = append(out, v.conv(nil, s, f.rt.At(i).Type()))
		}
	}
	if f.rt == nil {
		for _, s := range res {
			if s.k != 'v' || s.v.T == nil {
				panic(specErr{f.sc.pos + ": " + f.sc.name + ": only values can be returned"})
			}
			out = append(out, s.v)
		}
	}
	if len(st.frames) == 1 {
		x.ends++
		if st.mode == nil && !x.liveEnd && st.feasible(x.c.T) {
			x.liveEnd = true
		}
	}
	st.finish(out)
}

// scriptCall runs Go code (its body, not its contract, for "run"; contract or body for "call") or another model.
func (x *Exec) scriptCall(st *State, f *Frame, o SOp) []*State {
	v := st.ev(f)
	f.outs = o.names
	var fn *ssa.Function
	var dyn *Val
	if s, ok := f.senv[o.name]; ok && s.k == 'v' {
		fv, ok := x.lookup(s.v.L[0]).(*FnVal)
		if !ok {
			// unknown function value
			var args []Val
			sg, isS := under(s.v.T).(*types.Signature)
			if !isS {
				serr(nil, "%s: not a function value: %s", o.pos, o.name)
			}
			args = append(args, s.v)
			for i, e := range o.es {
				args = append(args, v.conv(e, v.eval(e), sg.Params().At(i).Type()))
			}
			key := sigKey(s.v.T)
			if full := key + " " + resKey(sg.Results()); x.U.spec.models[full] != nil {
				key = full
			}
			return x.dispatch(st, f, key, nil, args, nil, sg.Results(), 0)
		}
		fn = fv.fn
		sv := s.v
		dyn = &sv
	} else {
		fn = x.L.fnNamed(o.name)
		if fn == nil {
			if m := x.U.spec.models[o.name]; m != nil {
				var args []Val
				for _, e := range o.es {
					r := v.eval(e)
					if r.k != 'v' {
						serr(e, "only values can be passed")
					}
					args = append(args, r.v)
				}
				st.pushScript(m, args, nil, 0)
				return nil
			}
			panic(specErr{o.pos + ": missing target " + o.name})
		}
	}
	var args []Val
	if len(o.es) != len(fn.Params) {
		panic(specErr{fmt.Sprintf("%s: %s takes %d arguments", o.pos, o.name, len(fn.Params))})
	}
	for i, e := range o.es {
		args = append(args, v.conv(e, v.eval(e), fn.Params[i].Type()))
	}
	if o.k == "run" || dyn != nil {
		var binds []Val
		if dyn != nil {
			binds = x.lookup(dyn.L[0]).(*FnVal).binds
		}
		x.ran[fnKey(fn)] = true
		st.pushGo(fn, args, binds)
		return nil
	}
	return x.dispatch(st, f, fnKey(fn), fn, args, nil, fn.Signature.Results(), 0)
}
