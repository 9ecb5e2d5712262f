package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

type loopCut struct {
	lp    *Loop
	cut   bool
	count int
	pr    *probe // set while probing this loop
	entry *Snap
}

type probe struct {
	parent *probe
	frame  int // depth of the frame holding the loop
	lp     *Loop
	backs  []*State
}

type modset struct{}

func (L *Loader) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	L.mu.Lock()
	defer L.mu.Unlock()
	if m, ok := L.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			lp := m[h]
			if lp == nil {
				lp = &Loop{fn: fn, header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = lp
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if lp.blocks[x] {
					continue
				}
				lp.blocks[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range m {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		m[h].ord = i
	}
	L.loops[fn] = m
	return m
}

func (L *Loader) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop { return L.loopsOf(fn)[b] }

func (f *Frame) popLoops(to *ssa.BasicBlock) {
	for len(f.loops) > 0 && !f.loops[len(f.loops)-1].lp.blocks[to] {
		f.loops = f.loops[:len(f.loops)-1]
	}
}

// headerConst evaluates the loop header on a scratch state: is its exit decision a constant?
func (x *Exec) headerConst(st *State, lp *Loop, to *ssa.BasicBlock, first bool) bool {
	if _, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	s := st.clone()
	s.mode = &probe{parent: st.mode}
	f := s.top()
	d := len(s.frames)
	x.jump(s, f, to)
	for i := 0; i < 200; i++ {
		if s.dead || len(s.frames) != d {
			return false
		}
		f = s.top()
		if f.block != to {
			return false
		}
		in := to.Instrs[f.pc]
		if br, ok := in.(*ssa.If); ok {
			// a first iteration known only from facts is not peeled
			raw := s.val(f, br.Cond).L[0]
			cd := s.simpBool(raw)
			if raw == x.c.T || raw == x.c.F {
				return true
			}
			if cd == x.c.T || cd == x.c.F {
				k := 0
				if cd == x.c.F {
					k = 1
				}
				return !first || !lp.blocks[to.Succs[k]]
			}
			return false
		}
		switch c := in.(type) {
		case *ssa.Call:
			if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		case *ssa.Next, *ssa.Defer, *ssa.Go, *ssa.RunDefers, *ssa.Return, *ssa.Panic:
			return false
		}
		if more := x.instr(s, f, in); len(more) > 0 {
			return false
		}
	}
	return false
}

func (x *Exec) enterLoop(st *State, f *Frame, lp *Loop, to *ssa.BasicBlock) []*State {
	if n := len(f.loops); n > 0 && f.loops[n-1].lp == lp {
		lc := f.loops[n-1]
		if lc.cut {
			x.jump(st, f, to)
			if lc.pr != nil && lc.pr == st.mode {
				lc.pr.backs = append(lc.pr.backs, st.clone())
			}
			st.dead = true
			return nil
		}
		lim := 70
		if k, ok := x.U.spec.unroll[fnKey(f.fn)]; ok {
			lim = k
		}
		if lc.count < lim && x.headerConst(st, lp, to, false) {
			nl := *lc
			nl.count++
			f.loops = append(f.loops[:n-1:n-1], &nl)
			x.jump(st, f, to)
			return nil
		}
		f.loops = f.loops[: n-1 : n-1]
	} else if x.headerConst(st, lp, to, true) {
		f.loops = append(f.loops, &loopCut{lp: lp})
		x.jump(st, f, to)
		return nil
	}
	return x.cutLoop(st, f, lp, to)
}

type modEntry struct {
	key     string
	ref     *Term // nil: every object
	fresh   bool  // with ref nil: the objects allocated since the loop was entered
	regions [][2]*Term
	reg     int // index into regions; len(regions) means the whole array
}

type cand struct {
	name string
	e    *Expr
	env  map[string]SVal // schematic variables: name -> unused
	sch  string
	phi  *ssa.Phi
	plus int64
	ent  Val
	pphi *ssa.Phi
	pent Val
	pval ssa.Value // $v: a local variable or pointer parameter
	f    func(st *State, f *Frame) *Term
	dead bool
	bind bool
}

func (x *Exec) cutLoop(st *State, f *Frame, lp *Loop, to *ssa.BasicBlock) []*State {
	if !st.claim() {
		return nil
	}
	c := x.c
	key := fmt.Sprintf("%s#%d", fnKey(f.fn), lp.ord)
	x.jump(st, f, to)
	entry := st.snap()
	if os.Getenv("GVC_LOOPS") != "" {
		fmt.Fprintf(os.Stderr, "loop %s entered: %x %v\n", key, st.trail, st.trace)
	}
	// remember entry values of phis
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	ent := map[*ssa.Phi]Val{}
	for _, ph := range phis {
		ent[ph] = f.env[ph]
	}
	entry.args = map[string]SVal{}
	for n, v := range f.dbg {
		entry.args[n] = SVal{k: 'v', v: v}
	}
	entryN := c.n
	entryNA := st.na
	depth := len(st.frames)
	cands := x.candidates(st, f, lp, phis, ent)
	splits := x.hints(f, lp, phis, ent, true)
	// base case
	for _, cd := range cands {
		if !x.holds(st, f, cd, entry) {
			cd.dead = true
			if os.Getenv("GVC_LOOPS") != "" {
				fmt.Fprintf(os.Stderr, "loop %s: entry drops %s\n", key, cd.name)
			}
		}
	}
	mods := map[string][]*modEntry{}
	phiSame := map[*ssa.Phi]bool{}
	var head *State
	var pr *probe
	round := 0
	for {
		round++
		if round > 60 {
			x.unsupported(st, "loop "+key+" does not stabilise")
			return nil
		}
		s := st.clone()
		s.na += 64
		x.havocLoop(s, phis, ent, phiSame, mods, entryNA)
		bound := map[string]bool{}
		for _, cd := range cands {
			if !cd.dead {
				x.assumeCand(s, s.top(), cd, entry, mods, bound)
			}
		}
		pr = &probe{parent: st.mode, frame: depth, lp: lp}
		head = s.clone()
		s.mode = pr
		s.writes = &writeLog{parent: nil, keys: map[string]map[int]*Term{}, fresh: map[string]bool{}}
		wl := s.writes
		wl.old = func(q *State, k string, ref *Term) int {
			if n, ok := ref.Int64(); ok {
				if n < 0 && n > -(1<<50) && n < int64(-entryNA) {
					return 1
				}
				return 0
			}
			if ref.id <= entryN || hasWhole(mods[k]) {
				return 0
			}
			in := c.And(c.Lt(ref, c.Int(int64(-entryNA))), c.Lt(c.Int(-(1<<50)), ref))
			isOld := c.F
			for _, me := range mods[k] {
				if me.ref != nil && me.reg >= len(me.regions) {
					isOld = c.Or(isOld, c.Eq(ref, me.ref))
				}
			}
			if isOld == c.F && q.simpBool(in) == c.F {
				return 0
			}
			if q.valid(c.Or(isOld, in), 1500) {
				return 1
			}
			return 0
		}
		s.top().loops = append(s.top().loops, &loopCut{lp: lp, cut: true, pr: pr, entry: entry})
		for _, s := range x.splitHead(s, splits, entry) {
			x.run(s, func(q *State) bool {
				if q.mode != pr && q.mode != nil {
					// inside a nested probe: never happens, nested probes use their own run
				}
				if len(q.frames) < depth {
					q.dead = true
					return true
				}
				if len(q.frames) == depth {
					fr := q.top()
					if fr.sc == nil && fr.block != nil && !lp.blocks[fr.block] {
						q.dead = true
						return true
					}
				}
				return false
			})
		}
		if x.abort != "" {
			st.dead = true
			return nil
		}
		changed := false
		for k := range wl.all {
			if !hasWhole(mods[k]) {
				mods[k] = []*modEntry{{key: k}}
				changed = true
			}
		}
		var ks []string
		for k := range wl.keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, ref := range wl.keys[k] {
				if hasWhole(mods[k]) {
					continue
				}
				if _, ok := ref.Int64(); !ok && ref.id > entryN {
					mods[k] = []*modEntry{{key: k}}
					changed = true
					continue
				}
				if hasRef(mods[k], ref) {
					continue
				}
				me := &modEntry{key: k, ref: ref}
				if h := x.anyHM(k); h != nil && h.isArr {
					me.regions = x.regionsFor(st, f, ref, entryN)
				}
				mods[k] = append(mods[k], me)
				changed = true
			}
		}
		for k := range wl.fresh {
			if hasWhole(mods[k]) || hasFresh(mods[k]) {
				continue
			}
			mods[k] = append(mods[k], &modEntry{key: k, fresh: true})
			changed = true
		}
		if changed {
			continue
		}
		// region frames
		for _, k := range sortedKeys(mods) {
			for _, me := range mods[k] {
				if me.ref == nil || me.reg >= len(me.regions) {
					continue
				}
				for _, b := range pr.backs {
					if !x.regionKept(b, head, me) {
						me.reg++
						changed = true
						break
					}
				}
			}
		}
		if changed {
			continue
		}
		// phis that never change
		// candidate invariants
		for _, cd := range cands {
			if cd.dead {
				continue
			}
			for _, b := range pr.backs {
				if !x.holds(b, b.top(), cd, entry) {
					cd.dead = true
					changed = true
					if os.Getenv("GVC_LOOPS") != "" {
						fmt.Fprintf(os.Stderr, "loop %s round %d: body drops %s\n", key, round, cd.name)
					}
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	kept := 0
	for _, cd := range cands {
		if !cd.dead {
			kept++
			if st.mode == nil {
				o := x.oblig("invariant:"+key+"/"+cd.name, "loop invariant", "")
				o.Count += 1 + len(pr.backs)
				if o.By == "" {
					o.By = "z3-5.3.2"
				}
			}
		}
	}
	x.loopStats[key] = fmt.Sprintf("cut, %d invariants kept", kept)
	if os.Getenv("GVC_LOOPS") != "" {
		fmt.Fprintf(os.Stderr, "loop %s: rounds %d backs %d mods %v\n", key, round, len(pr.backs), sortedKeys(mods))
		for _, cd := range cands {
			if !cd.dead {
				fmt.Fprintf(os.Stderr, "   kept %s\n", cd.name)
			}
		}
	}
	st.na += 64
	x.havocLoop(st, phis, ent, phiSame, mods, entryNA)
	bound := map[string]bool{}
	for _, cd := range cands {
		if !cd.dead {
			x.assumeCand(st, f, cd, entry, mods, bound)
		}
	}
	f.loops = append(f.loops, &loopCut{lp: lp, cut: true, entry: entry})
	if len(splits) == 0 {
		return nil
	}
	rs := x.splitHead(st, splits, entry)
	var others []*State
	live := false
	for _, r := range rs {
		if r == st {
			live = true
		} else {
			others = append(others, r)
		}
	}
	st.dead = st.dead || !live
	return others
}

func sortedKeys(m map[string][]*modEntry) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func hasWhole(m []*modEntry) bool { return len(m) == 1 && m[0].ref == nil && !m[0].fresh }
func hasFresh(m []*modEntry) bool {
	for _, e := range m {
		if e.fresh {
			return true
		}
	}
	return false
}
func hasRef(m []*modEntry, r *Term) bool {
	for _, e := range m {
		if e.ref == r {
			return true
		}
	}
	return false
}

func (x *Exec) anyHM(k string) *HM { return x.initHeap[k] }

// regionsFor lists regions of the array behind ref given by slices in scope.
func (x *Exec) regionsFor(st *State, f *Frame, ref *Term, entryN int) [][2]*Term {
	var r [][2]*Term
	seen := map[[2]int]bool{}
	add := func(v Val) {
		if v.T == nil || !isSlice(v.T) || v.L[0] != ref && x.baseRef(v.L[0]) != ref {
			return
		}
		if v.L[1].id > entryN || v.L[2].id > entryN {
			return
		}
		for _, n := range []*Term{v.L[2], v.L[3]} {
			k := [2]int{v.L[1].id, n.id}
			if !seen[k] && n.id <= entryN {
				seen[k] = true
				r = append(r, [2]*Term{v.L[1], n})
			}
		}
	}
	var names []string
	for n := range f.dbg {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		add(f.dbg[n])
	}
	for _, p := range f.fn.Params {
		add(f.env[p])
	}
	if len(r) > 4 {
		r = r[:4]
	}
	return r
}

func (x *Exec) baseRef(t *Term) *Term {
	if l, ok := x.lookup(t).(*Loc); ok {
		return l.ref
	}
	return t
}

func (x *Exec) regionKept(b, head *State, me *modEntry) bool {
	c := x.c
	if b.dead {
		return true
	}
	rg := me.regions[me.reg]
	s := b.clone()
	k := c.Fresh("rk", SInt, nil, nil)
	s.fact(c.Or(c.Lt(k, rg[0]), c.Le(c.Add(rg[0], rg[1]), k)))
	h1, h2 := s.heap[me.key], head.heap[me.key]
	if h1 == nil || h2 == nil {
		return true
	}
	return s.valid(c.Eq(s.readArr(s.readHMArr(h1, me.ref), k), s.readArr(s.readHMArr(h2, me.ref), k)), 1500)
}

func (x *Exec) havocLoop(s *State, phis []*ssa.Phi, ent map[*ssa.Phi]Val, same map[*ssa.Phi]bool, mods map[string][]*modEntry, na int) {
	c := x.c
	f := s.top()
	for _, ph := range phis {
		if same[ph] {
			continue
		}
		n := ph.Comment
		if n == "" {
			n = ph.Name()
		}
		v := s.fresh(n, ph.Type(), false)
		for i, lf := range x.leaves(ph.Type()) {
			if lf.Kind == 'p' || lf.Kind == 'd' || lf.Kind == 's' {
				s.older(v.L[i])
			}
		}
		f.env[ph] = v
		if ph.Comment != "" {
			f.dbg[ph.Comment] = v
		}
	}
	for _, k := range sortedKeys(mods) {
		for _, me := range mods[k] {
			if me.ref == nil && me.fresh {
				s.writeFresh(k, na)
				s.noteFresh(k, na)
				continue
			}
			if me.ref == nil {
				s.havocKey(k)
				continue
			}
			h := s.heap[k]
			if h == nil {
				h = x.initHeap[k]
			}
			lf := x.keyLeaf[k]
			s.noteWrite(k, me.ref)
			if h.isArr {
				u := c.DeclUF(c.FreshName("L."+k), 1, lf.Sort, lf.Lo, lf.Hi)
				na := &Arr{kind: 'u', uf: u, sort: lf.Sort}
				if me.reg < len(me.regions) {
					rg := me.regions[me.reg]
					na = &Arr{kind: 'c', parent: s.readHMArr(h, me.ref), lo: rg[0], n: rg[1], sort: lf.Sort, f: func(st *State, i *Term) *Term { return c.App(u, i) }}
				}
				s.writeHM(h, me.ref, nil, na)
			} else {
				s.writeHM(h, me.ref, c.Fresh("L."+k, lf.Sort, lf.Lo, lf.Hi), nil)
			}
		}
	}
}

// loopEnv gives the source variables visible in an invariant.
func (x *Exec) loopEnv(st *State, f *Frame) *Env {
	var up *Env
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].sc != nil {
			up = &Env{vars: st.frames[i].senv, up: up}
			break
		}
	}
	vars := map[string]SVal{}
	for n, v := range f.dbg {
		vars[n] = SVal{k: 'v', v: v}
	}
	return &Env{vars: vars, up: up}
}

func (x *Exec) candEv(st *State, f *Frame, cd *cand, entry *Snap) *ev {
	env := x.loopEnv(st, f)
	for i, p := range f.fn.Params {
		env.vars[fmt.Sprintf("$a%d", i)] = SVal{k: 'v', v: f.env[p]}
	}
	if cd.pphi != nil {
		pv := f.env[cd.pphi]
		pv.T = cd.pphi.Type()
		env.vars["$p"] = SVal{k: 'v', v: pv}
		env.vars["$b"] = env.vars["$p"]
		env.vars["$j"] = env.vars["$p"]
		if len(cd.pent.L) > 0 {
			e2 := *entry
			pe := cd.pent
			pe.T = cd.pphi.Type()
			e2.args = map[string]SVal{"$p": {k: 'v', v: pe}, "$b": {k: 'v', v: pe}, "$j": {k: 'v', v: pe}}
			for n, v := range entry.args {
				e2.args[n] = v
			}
			entry = &e2
		}
	}
	if cd.pval != nil {
		pv := f.env[cd.pval]
		pv.T = cd.pval.Type()
		env.vars["$v"] = SVal{k: 'v', v: pv}
		env.vars["$s"] = SVal{k: 'v', v: pv}
	}
	if cd.sch != "" {
		t := x.c.AddI(f.env[cd.phi].L[0], cd.plus)
		env = &Env{vars: map[string]SVal{cd.sch: x.mi(t)}, up: env}
	}
	if cd.sch != "" {
		e2 := *entry
		e2.args = map[string]SVal{cd.sch: x.mi(x.c.AddI(cd.ent.L[0], cd.plus))}
		for n, v := range entry.args {
			e2.args[n] = v
		}
		entry = &e2
	}
	fr := &Frame{snaps: map[string]*Snap{"entry": entry}, senv: map[string]SVal{}}
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].sc != nil {
			for k, s := range st.frames[i].snaps {
				fr.snaps[k] = s
			}
			break
		}
	}
	return &ev{st: st, env: env, fr: fr}
}

func (x *Exec) holds(st *State, f *Frame, cd *cand, entry *Snap) (ok bool) {
	if st.dead {
		return true
	}
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(specErr); is {
				if os.Getenv("GVC_LOOPS") != "" {
					fmt.Fprintf(os.Stderr, "   candidate %s: %s\n", cd.name, e.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	if cd.f != nil {
		t := cd.f(st, f)
		if t == nil {
			return false
		}
		return st.valid(t, 1500)
	}
	return x.candEv(st, f, cd, entry).valid(cd.e)
}

// valid checks an expression without recording an obligation.
func (v *ev) valid(e *Expr) bool {
	st := v.st
	c := st.x.c
	switch e.op {
	case "&&":
		return v.valid(e.args[0]) && v.valid(e.args[1])
	case "==>":
		h := v.bool(e.args[0])
		if st.simpBool(h) == c.F {
			return true
		}
		s2 := st.clone()
		s2.fact(h)
		if s2.dead {
			return true
		}
		return v.sub(s2).valid(e.args[1])
	case "forall":
		s2 := st.clone()
		v2 := v.sub(s2)
		lo, hi := v2.int(e.args[0]), v2.int(e.args[1])
		k := c.Fresh("sk", SInt, nil, nil)
		s2.fact(c.Le(lo, k))
		s2.fact(c.Lt(k, hi))
		if s2.dead {
			return true
		}
		return v2.with(e.name, st.x.mi(k)).valid(e.args[2])
	case "==":
		a, b := v.eval(e.args[0]), v.eval(e.args[1])
		if a.k == 's' || b.k == 's' {
			sa, sb := v.toSeq(e, a), v.toSeq(e, b)
			if !st.valid(c.Eq(sa.n, sb.n), 1500) {
				return false
			}
			s2 := st.clone()
			k := c.Fresh("sk", SInt, nil, nil)
			s2.fact(c.Le(c.zero, k))
			s2.fact(c.Lt(k, sb.n))
			if s2.dead {
				return true
			}
			return s2.valid(c.Eq(s2.seqAt(sa, k), s2.seqAt(sb, k)), 3000)
		}
	case "call":
		if m := st.x.U.spec.macros[e.name]; m != nil {
			return v.macro(e, m).valid(m.body)
		}
	}
	return st.valid(v.bool(e), 3000)
}

func (x *Exec) assumeCand(st *State, f *Frame, cd *cand, entry *Snap, mods map[string][]*modEntry, bound map[string]bool) {
	if cd.f != nil {
		if t := cd.f(st, f); t != nil {
			st.fact(t)
		}
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specErr); is {
				return // the fact is simply not used
			}
			panic(r)
		}
	}()
	v := x.candEv(st, f, cd, entry)
	v.bound = bound
	v.assumeBind(cd.e, mods)
}

// assumeBind assumes an invariant right after the loop's targets were forgotten; equations whose left side is a
// forgotten sequence are used as assignments (an over-approximation of the equation).
func (v *ev) assumeBind(e *Expr, mods map[string][]*modEntry) {
	st := v.st
	c := st.x.c
	switch e.op {
	case "&&":
		v.assumeBind(e.args[0], mods)
		v.assumeBind(e.args[1], mods)
		return
	case "call":
		if m := st.x.U.spec.macros[e.name]; m != nil {
			v.macro(e, m).assumeBind(m.body, mods)
			return
		}
	case "==":
		b := v.eval(e.args[1])
		a := v.eval(e.args[0])
		if a.k == 's' || b.k == 's' {
			l := e.args[0]
			if l.op == "call" && l.name == "bytes" {
				s := v.eval(l.args[0])
				el := under(s.v.T).(*types.Slice).Elem()
				ml := st.x.memLoc(s.v.L[0], el, c.zero)
				k, _ := ml.key("")
				for _, me := range mods[k] {
					if me.ref == nil || me.ref == ml.ref {
						q := v.toSeq(e, b)
						st.fact(c.Eq(s.v.L[2], q.n))
						bk := fmt.Sprintf("%s@%d@%d@%d", k, ml.ref.id, s.v.L[1].id, s.v.L[2].id)
						if v.bound[bk] {
							st.describeRegion(s.v, el, q)
						} else {
							v.bound[bk] = true
							st.bindRegion(s.v, el, q)
						}
						return
					}
				}
				return // not modified by the loop: its value is already precise
			}
			if key, kind, ref, ok := v.ghostOf(l); ok && (kind == "seq" || kind == "iseq") {
				for _, me := range mods[key+"#a"] {
					if me.ref == nil || me.ref == ref {
						bk := fmt.Sprintf("%s@%d", key, ref.id)
						if v.bound[bk] {
							st.fact(v.bool(e))
							return
						}
						v.bound[bk] = true
						v.ghostWrite(key, kind, ref, b, e)
						return
					}
				}
				return
			}
		}
	}
	st.fact(v.bool(e))
}

func (x *Exec) candidates(st *State, f *Frame, lp *Loop, phis []*ssa.Phi, ent map[*ssa.Phi]Val) []*cand {
	c := x.c
	var out []*cand
	out = append(out, x.hints(f, lp, phis, ent, false)...)
	for _, ph := range phis {
		ph := ph
		if isBool(ph.Type()) {
			v0 := ent[ph].L[0]
			out = append(out, &cand{name: phName(ph) + " unchanged", f: func(st *State, f *Frame) *Term { return c.Eq(f.env[ph].L[0], v0) }})
			continue
		}
		if !isInt(ph.Type()) {
			v0 := ent[ph]
			if len(v0.L) >= 1 && !isString(ph.Type()) {
				out = append(out, &cand{name: phName(ph) + " unchanged", f: func(st *State, f *Frame) *Term {
					var cs []*Term
					for i := range v0.L {
						cs = append(cs, c.Eq(f.env[ph].L[i], v0.L[i]))
					}
					return c.And(cs...)
				}})
			}
			continue
		}
		e0 := ent[ph].L[0]
		get := func(f *Frame) *Term { return f.env[ph].L[0] }
		out = append(out,
			&cand{name: phName(ph) + " >= entry", f: func(st *State, f *Frame) *Term { return c.Le(e0, get(f)) }},
			&cand{name: phName(ph) + " <= entry", f: func(st *State, f *Frame) *Term { return c.Le(get(f), e0) }},
			&cand{name: phName(ph) + " >= 0", f: func(st *State, f *Frame) *Term { return c.Le(c.zero, get(f)) }},
			&cand{name: phName(ph) + " >= -1", f: func(st *State, f *Frame) *Term { return c.Le(c.Int(-1), get(f)) }})
		// bounds from comparisons in the loop
		for b := range lp.blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				default:
					continue
				}
				for _, sw := range []bool{false, true} {
					p, q := bo.X, bo.Y
					if sw {
						p, q = q, p
					}
					if !derivedFrom(p, ph) {
						continue
					}
					bound, okb := f.env[q]
					if k, isC := q.(*ssa.Const); isC {
						bound, okb = x.constVal(k), true
					}
					if !okb || len(bound.L) != 1 || bound.L[0].sort != SInt {
						// len() of something computed in the header
						if cl, isCall := q.(*ssa.Call); isCall {
							if bi, isB := cl.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
								if sv, okv := f.env[cl.Call.Args[0]]; okv && (isSlice(sv.T) || isString(sv.T)) {
									bound = Val{types.Typ[types.Int], []*Term{sv.L[2]}}
									okb = true
								}
							}
						}
						// or arithmetic on values that the loop leaves alone
						if !okb || len(bound.L) != 1 || bound.L[0].sort != SInt {
							if t := x.loopBound(f, q, 3); t != nil {
								bound, okb = Val{types.Typ[types.Int], []*Term{t}}, true
							}
						}
						if !okb || len(bound.L) != 1 || bound.L[0].sort != SInt {
							continue
						}
					}
					bt := bound.L[0]
					nm := q.Name()
					for _, d := range []int64{0, -1} {
						d := d
						out = append(out, &cand{name: fmt.Sprintf("%s <= %s%+d", phName(ph), nm, d), f: func(st *State, f *Frame) *Term { return c.Le(get(f), c.AddI(bt, d)) }},
							&cand{name: fmt.Sprintf("%s >= %s%+d", phName(ph), nm, d), f: func(st *State, f *Frame) *Term { return c.Le(c.AddI(bt, d), get(f)) }})
					}
				}
			}
		}
		for _, p2 := range phis {
			p2 := p2
			if p2 == ph || !isInt(p2.Type()) {
				continue
			}
			d0 := c.Sub(e0, ent[p2].L[0])
			if ph.Name() < p2.Name() {
				out = append(out, &cand{name: phName(ph) + " - " + phName(p2) + " constant", f: func(st *State, f *Frame) *Term { return c.Eq(c.Sub(get(f), f.env[p2].L[0]), d0) }})
				s0 := c.Add(e0, ent[p2].L[0])
				out = append(out, &cand{name: phName(ph) + " + " + phName(p2) + " constant", f: func(st *State, f *Frame) *Term { return c.Eq(c.Add(get(f), f.env[p2].L[0]), s0) }})
			}
			out = append(out, &cand{name: phName(ph) + " <= " + phName(p2), f: func(st *State, f *Frame) *Term { return c.Le(get(f), f.env[p2].L[0]) }})
		}
		// non-int slices advanced together with a counter
		for _, p2 := range phis {
			p2 := p2
			if !isSlice(p2.Type()) {
				continue
			}
			s0 := c.Add(e0, ent[p2].L[2])
			out = append(out, &cand{name: phName(ph) + " + len(" + phName(p2) + ") constant", f: func(st *State, f *Frame) *Term { return c.Eq(c.Add(get(f), f.env[p2].L[2]), s0) }})
		}
	}
	for _, ph := range phis {
		ph := ph
		if !isSlice(ph.Type()) {
			continue
		}
		e0 := ent[ph]
		// bounds on its length from comparisons in the loop
		for b := range lp.blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				default:
					continue
				}
				for _, sw := range []bool{false, true} {
					p, q := bo.X, bo.Y
					if sw {
						p, q = q, p
					}
					cl, isCall := p.(*ssa.Call)
					if !isCall {
						continue
					}
					bi, isB := cl.Call.Value.(*ssa.Builtin)
					if !isB || bi.Name() != "len" || cl.Call.Args[0] != ph {
						continue
					}
					bt := x.loopBound(f, q, 3)
					if bt == nil {
						continue
					}
					for _, d := range []int64{0, -1} {
						d := d
						out = append(out, &cand{name: fmt.Sprintf("len(%s) <= %s%+d", phName(ph), q.Name(), d), f: func(st *State, f *Frame) *Term { return c.Le(f.env[ph].L[2], c.AddI(bt, d)) }},
							&cand{name: fmt.Sprintf("len(%s) >= %s%+d", phName(ph), q.Name(), d), f: func(st *State, f *Frame) *Term { return c.Le(c.AddI(bt, d), f.env[ph].L[2]) }})
					}
				}
			}
		}
		out = append(out,
			&cand{name: phName(ph) + " same base", f: func(st *State, f *Frame) *Term { return c.Eq(f.env[ph].L[0], e0.L[0]) }},
			&cand{name: phName(ph) + " same end", f: func(st *State, f *Frame) *Term {
				return c.Eq(c.Add(f.env[ph].L[1], f.env[ph].L[2]), c.Add(e0.L[1], e0.L[2]))
			}},
			&cand{name: phName(ph) + " same capacity end", f: func(st *State, f *Frame) *Term {
				return c.Eq(c.Add(f.env[ph].L[1], f.env[ph].L[3]), c.Add(e0.L[1], e0.L[3]))
			}},
			&cand{name: phName(ph) + " offset grows", f: func(st *State, f *Frame) *Term { return c.Le(e0.L[1], f.env[ph].L[1]) }})
	}
	return out
}

func phName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

// derivedFrom says p is ph or ph plus a constant.
func derivedFrom(p ssa.Value, ph *ssa.Phi) bool {
	if p == ph {
		return true
	}
	if b, ok := p.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, k := b.Y.(*ssa.Const); k {
			return b.X == ph
		}
	}
	return false
}

func usesName(e *Expr, n string) bool {
	if e == nil {
		return false
	}
	if e.op == "id" && e.name == n {
		return true
	}
	for _, a := range e.args {
		if usesName(a, n) {
			return true
		}
	}
	return false
}

// noteFresh records that objects allocated after a point are written.
func (st *State) noteFresh(k string, since int) {
	for w := st.writes; w != nil; w = w.parent {
		if w.fresh == nil {
			w.fresh = map[string]bool{}
		}
		w.fresh[k] = true
	}
}

// hints instantiates the invariants (or case splits) of the contract files for a loop.
func (x *Exec) hints(f *Frame, lp *Loop, phis []*ssa.Phi, ent map[*ssa.Phi]Val, split bool) []*cand {
	var out []*cand
	var lis []*LoopInv
	lis = append(lis, x.U.spec.loops[fnKey(f.fn)]...)
	lis = append(lis, x.U.spec.loops["*"]...)
	for _, li := range lis {
		if li.n >= 0 && li.n != lp.ord {
			continue
		}
		es := li.invs
		if split {
			es = li.split
		}
		for i, e := range es {
			nm := "split"
			if !split {
				nm = li.names[i]
			}
			// schematic names: $i an integer phi (or its successor), $b a boolean phi, $p any other phi
			var ps []*ssa.Phi
			if usesName(e, "$p") {
				for _, ph := range phis {
					if split && !appended(ph, map[ssa.Value]bool{}) {
						continue
					}
					if !isInt(ph.Type()) && !isBool(ph.Type()) {
						ps = append(ps, ph)
					}
				}
			} else if usesName(e, "$b") {
				for _, ph := range phis {
					if isBool(ph.Type()) {
						ps = append(ps, ph)
					}
				}
			} else if usesName(e, "$j") { // an integer phi
				for _, ph := range phis {
					if isInt(ph.Type()) {
						ps = append(ps, ph)
					}
				}
			} else {
				ps = []*ssa.Phi{nil}
			}
			pvs := []ssa.Value{nil}
			if usesName(e, "$v") {
				pvs = nil
				for _, p := range f.fn.Params {
					if isPtr(p.Type()) {
						pvs = append(pvs, p)
					}
				}
				for _, p := range f.fn.FreeVars {
					if isPtr(p.Type()) {
						pvs = append(pvs, p)
					}
				}
				for _, b := range f.fn.Blocks {
					for _, in := range b.Instrs {
						if a, ok := in.(*ssa.Alloc); ok {
							if _, known := f.env[a]; known {
								pvs = append(pvs, a)
							}
						}
					}
				}
			}
			if usesName(e, "$s") {
				pvs = nil
				slice := func(v ssa.Value) {
					if _, ok := v.Type().Underlying().(*types.Slice); ok {
						if _, known := f.env[v]; known {
							pvs = append(pvs, v)
						}
					}
				}
				for _, p := range f.fn.Params {
					slice(p)
				}
				for _, b := range f.fn.Blocks {
					for _, in := range b.Instrs {
						if v, ok := in.(ssa.Value); ok {
							if _, ph := v.(*ssa.Phi); !ph {
								slice(v)
							}
						}
					}
				}
			}
			for _, pp := range ps {
				for _, pv := range pvs {
					suf := ""
					if pp != nil {
						suf = " [$p=" + phName(pp) + "]"
					}
					if pv != nil {
						suf += " [" + pv.Name() + "]"
					}
					if !usesName(e, "$i") {
						out = append(out, &cand{name: nm + ": " + e.String() + suf, e: e, pphi: pp, pent: entOf(ent, pp), pval: pv})
						continue
					}
					for _, ph := range phis {
						if !isInt(ph.Type()) {
							continue
						}
						for _, d := range []int64{0, 1} {
							out = append(out, &cand{name: fmt.Sprintf("%s: %s [$i=%s+%d]%s", nm, e, phName(ph), d, suf), e: e, sch: "$i", phi: ph, plus: d, ent: ent[ph], pphi: pp, pent: entOf(ent, pp), pval: pv})
						}
					}
				}
			}
		}
	}
	return out
}

// splitHead forks a loop head by the case splits asked for.
func (x *Exec) splitHead(st *State, splits []*cand, entry *Snap) []*State {
	cur := []*State{st}
	for _, sp := range splits {
		var next []*State
		for _, s := range cur {
			t := x.evalCand(s, sp, entry)
			if t == nil {
				next = append(next, s)
				continue
			}
			t = s.simpBool(t)
			if t == x.c.T || t == x.c.F {
				next = append(next, s)
				continue
			}
			o := s.clone()
			s.mix(1)
			o.mix(2)
			s.fact(t)
			o.fact(x.c.Not(t))
			for _, q := range []*State{s, o} {
				if !q.dead && q.feasible(x.c.T) {
					next = append(next, q)
				}
			}
		}
		cur = next
	}
	return cur
}

func (x *Exec) evalCand(st *State, cd *cand, entry *Snap) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specErr); is {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return x.candEv(st, st.top(), cd, entry).bool(cd.e)
}

func entOf(ent map[*ssa.Phi]Val, ph *ssa.Phi) Val {
	if ph == nil {
		return Val{}
	}
	return ent[ph]
}

// appended says whether a slice variable grows by append in its loop.
func appended(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if isSlice(e.Type()) && appended(e, seen) {
				return true
			}
		}
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append"
	}
	return false
}

// loopBound evaluates an integer sum or difference, computed in a loop, of
// values known at its entry. It only suggests candidate bounds, so that
// overflow is not looked at here.
func (x *Exec) loopBound(f *Frame, q ssa.Value, depth int) *Term {
	if k, isC := q.(*ssa.Const); isC && isInt(q.Type()) {
		if v := x.constVal(k); len(v.L) == 1 && v.L[0].sort == SInt {
			return v.L[0]
		}
		return nil
	}
	if v, ok := f.env[q]; ok {
		if len(v.L) == 1 && v.L[0].sort == SInt {
			return v.L[0]
		}
		return nil
	}
	switch q := q.(type) {
	case *ssa.BinOp:
		if depth == 0 || (q.Op != token.ADD && q.Op != token.SUB) {
			return nil
		}
		a, b := x.loopBound(f, q.X, depth-1), x.loopBound(f, q.Y, depth-1)
		if a == nil || b == nil {
			return nil
		}
		if q.Op == token.ADD {
			return x.c.Add(a, b)
		}
		return x.c.Sub(a, b)
	case *ssa.Call:
		if bi, isB := q.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
			if sv, okv := f.env[q.Call.Args[0]]; okv && (isSlice(sv.T) || isString(sv.T)) {
				return sv.L[2]
			}
		}
	}
	return nil
}
