package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type iv struct{ lo, hi *big.Int }

type Facts struct {
	parent *Facts
	known  map[int]bool
	bnd    map[int]iv
	lmax   map[string]*big.Int
	born   map[int]int
}

func newFacts(p *Facts) *Facts {
	return &Facts{parent: p, known: map[int]bool{}, bnd: map[int]iv{}, lmax: map[string]*big.Int{}, born: map[int]int{}}
}

// flatten chains of tiny layers now and then
func (f *Facts) depth() int {
	n := 0
	for p := f; p != nil; p = p.parent {
		n++
	}
	return n
}

func (f *Facts) flat() *Facts {
	var chain []*Facts
	for p := f; p != nil; p = p.parent {
		chain = append(chain, p)
	}
	n := newFacts(nil)
	for i := len(chain) - 1; i >= 0; i-- {
		for k, v := range chain[i].known {
			n.known[k] = v
		}
		for k, v := range chain[i].bnd {
			n.bnd[k] = v
		}
		for k, v := range chain[i].born {
			n.born[k] = v
		}
		for k, v := range chain[i].lmax {
			n.lmax[k] = v
		}
	}
	return n
}

// Frame is an activation: of a Go function or of a specification script.
type Frame struct {
	// Go frames
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	env    map[ssa.Value]Val
	tup    map[ssa.Value][]Val
	defers []deferred
	call   ssa.Value // instruction waiting for the callee's results
	rundef bool
	dbg    map[string]Val // source variable names to latest value
	loops  []*loopCut     // active loop cuts in this frame
	inits  map[*ssa.BasicBlock][]Val
	// script frames
	sc      *Script
	spc     int
	senv    map[string]SVal
	snaps   map[string]*Snap
	outs    []string // targets of a pending call
	onRet   func(st *State, res []Val)
	unit    string
	mod     *modset // frame condition being checked
	saved   SVal
	rt      *types.Tuple
	callPos string
}

type deferred struct {
	fn   *ssa.Function
	args []Val
	call *ssa.CallCommon
	dyn  *Val
}

// Snap is a snapshot of the heap.
type Snap struct {
	heap map[string]*HM
	args map[string]SVal
	na   int
}

type State struct {
	x      *Exec
	frames []*Frame
	heap   map[string]*HM
	pc     []*Term
	facts  *Facts
	na     int // allocations so far
	trace  []string
	dead   bool
	mode   *probe // probing / houdini mode: obligations are not recorded
	writes *writeLog
	steps  int
	opq    map[string]bool
	trail  uint64 // identifies the decisions taken so far
	owned  bool   // this path belongs to this worker
}

// mix adds a decision to the path's identity.
func (st *State) mix(k int) {
	h := st.trail ^ uint64(k+7)
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	st.trail = h
}

// claim says whether this worker is to follow the path: the workers of a unit share its paths among them.
func (st *State) claim() bool {
	if st.owned || st.mode != nil || st.x.U.claims == nil {
		return true
	}
	if o, taken := st.x.U.claims.LoadOrStore(st.trail, st.x); taken && o != st.x {
		st.dead = true
		return false
	}
	st.owned = true
	return true
}

type writeLog struct {
	parent *writeLog
	keys   map[string]map[int]*Term
	all    map[string]bool
	fresh  map[string]bool // written in objects allocated since the loop was entered
	old    func(st *State, key string, ref *Term) int
}

func (st *State) noteWrite(key string, ref *Term) {
	for w := st.writes; w != nil; w = w.parent {
		if w.old != nil {
			switch w.old(st, key, ref) {
			case 1:
				w.fresh[key] = true
				continue
			case 2:
				continue
			}
		}
		m := w.keys[key]
		if m == nil {
			m = map[int]*Term{}
			w.keys[key] = m
		}
		m[ref.id] = ref
	}
}

func (st *State) noteWriteAll(key string) {
	for w := st.writes; w != nil; w = w.parent {
		if w.all == nil {
			w.all = map[string]bool{}
		}
		w.all[key] = true
	}
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[string]*HM, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	base := st.facts
	if base.depth() > 40 {
		base = base.flat()
	}
	st.facts = newFacts(base)
	n.facts = newFacts(base)
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	return &n
}

func (f *Frame) clone() *Frame {
	n := *f
	if f.env != nil {
		n.env = make(map[ssa.Value]Val, len(f.env)+8)
		for k, v := range f.env {
			n.env[k] = v
		}
	}
	if f.dbg != nil {
		n.dbg = make(map[string]Val, len(f.dbg))
		for k, v := range f.dbg {
			n.dbg[k] = v
		}
	}
	if f.senv != nil {
		n.senv = make(map[string]SVal, len(f.senv))
		for k, v := range f.senv {
			n.senv[k] = v
		}
	}
	if f.snaps != nil {
		n.snaps = make(map[string]*Snap, len(f.snaps))
		for k, v := range f.snaps {
			n.snaps[k] = v
		}
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) snap() *Snap {
	h := make(map[string]*HM, len(st.heap))
	for k, v := range st.heap {
		h[k] = v
	}
	return &Snap{heap: h, na: st.na}
}

func (st *State) known(t *Term) bool {
	for f := st.facts; f != nil; f = f.parent {
		if f.known[t.id] {
			return true
		}
	}
	return false
}

func (st *State) bnd(t *Term) (lo, hi *big.Int) {
	for f := st.facts; f != nil; f = f.parent {
		if b, ok := f.bnd[t.id]; ok {
			return b.lo, b.hi
		}
	}
	return t.lo, t.hi
}

func (st *State) bounds(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OConst:
		return t.val, t.val
	case OLin:
		return st.boundsLin(t)
	case OIte:
		al, ah := st.bounds(t.args[1])
		bl, bh := st.bounds(t.args[2])
		lo, hi = st.bnd(t)
		var l2, h2 *big.Int
		if al != nil && bl != nil {
			l2 = minB(al, bl)
		}
		if ah != nil && bh != nil {
			h2 = maxB(ah, bh)
		}
		if l2 != nil && (lo == nil || l2.Cmp(lo) > 0) {
			lo = l2
		}
		if h2 != nil && (hi == nil || h2.Cmp(hi) < 0) {
			hi = h2
		}
		return
	case OMul:
		lo, hi = st.bnd(t)
		al, ah := st.bounds(t.args[0])
		bl, bh := st.bounds(t.args[1])
		if al != nil && ah != nil && bl != nil && bh != nil {
			var l2, h2 *big.Int
			for _, p := range []*big.Int{al, ah} {
				for _, q := range []*big.Int{bl, bh} {
					m := new(big.Int).Mul(p, q)
					if l2 == nil || m.Cmp(l2) < 0 {
						l2 = m
					}
					if h2 == nil || m.Cmp(h2) > 0 {
						h2 = m
					}
				}
			}
			if lo == nil || l2.Cmp(lo) > 0 {
				lo = l2
			}
			if hi == nil || h2.Cmp(hi) < 0 {
				hi = h2
			}
		} else if lo == nil && al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
			lo = new(big.Int).Mul(al, bl)
		}
		return
	case ODiv:
		l, h := st.bounds(t.args[0])
		k := t.args[1].val
		if l != nil {
			lo = floorDiv(l, k)
		}
		if h != nil {
			hi = floorDiv(h, k)
		}
		l2, h2 := st.bnd(t)
		if l2 != nil && (lo == nil || l2.Cmp(lo) > 0) {
			lo = l2
		}
		if h2 != nil && (hi == nil || h2.Cmp(hi) < 0) {
			hi = h2
		}
		return
	case OMod:
		lo, hi = st.bnd(t)
		l, h := st.bounds(t.args[0])
		if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(t.args[1].val) < 0 {
			return maxB(l, lo), minB(h, hi)
		}
		return
	}
	return st.bnd(t)
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (st *State) boundsLin(t *Term) (lo, hi *big.Int) {
	l := st.x.c.toLin(t)
	lo, hi = l.k, l.k
	for i, a := range l.ts {
		al, ah := st.bounds0(a)
		p, q := scaleB(l.cs[i], al, ah)
		lo = addBound(lo, p)
		hi = addBound(hi, q)
	}
	if u := st.lmaxOf(l); u != nil { // L <= u
		z := new(big.Int).Add(u, l.k)
		if hi == nil || z.Cmp(hi) < 0 {
			hi = z
		}
	}
	if u := st.lmaxOf(negLin(l)); u != nil { // -L <= u
		z := new(big.Int).Sub(l.k, u)
		if lo == nil || z.Cmp(lo) > 0 {
			lo = z
		}
	}
	return
}

func (st *State) bounds0(a *Term) (lo, hi *big.Int) {
	if a.op == OLin {
		return st.bnd(a)
	}
	return st.bounds(a)
}

func negLin(l lin) lin {
	r := lin{k: new(big.Int).Neg(l.k), ts: l.ts}
	for _, c := range l.cs {
		r.cs = append(r.cs, new(big.Int).Neg(c))
	}
	return r
}

func linKey(l lin) string {
	var b strings.Builder
	for i := range l.ts {
		fmt.Fprintf(&b, "%s*%d,", l.cs[i].String(), l.ts[i].id)
	}
	return b.String()
}

func (st *State) lmaxOf(l lin) *big.Int {
	if len(l.ts) < 2 {
		return nil
	}
	k := linKey(l)
	var r *big.Int
	for f := st.facts; f != nil; f = f.parent {
		if m, ok := f.lmax[k]; ok {
			if r == nil || m.Cmp(r) < 0 {
				r = m
			}
		}
	}
	return r
}

// linMax: 1 if t<=0 is known, -1 if t>0 is known.
func (st *State) linMax(t *Term) int {
	l := st.x.c.toLin(t)
	if u := st.lmaxOf(l); u != nil {
		if new(big.Int).Add(u, l.k).Sign() <= 0 {
			return 1
		}
	}
	if u := st.lmaxOf(negLin(l)); u != nil {
		if new(big.Int).Sub(l.k, u).Sign() > 0 {
			return -1
		}
	}
	return 0
}

func (st *State) setBnd(t *Term, lo, hi *big.Int) bool {
	ol, oh := st.bnd(t)
	ch := false
	if lo != nil && (ol == nil || lo.Cmp(ol) > 0) {
		ol = lo
		ch = true
	}
	if hi != nil && (oh == nil || hi.Cmp(oh) < 0) {
		oh = hi
		ch = true
	}
	if ch {
		st.facts.bnd[t.id] = iv{ol, oh}
	}
	return ch
}

// fact adds a fact to the path condition (it must hold).
func (st *State) fact(t *Term) {
	c := st.x.c
	if t == c.T || t.free || st.known(t) {
		return
	}
	t = st.simpBool(t)
	if t == c.T {
		return
	}
	if t == c.F {
		st.dead = true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.fact(a)
		}
		return
	}
	st.facts.known[t.id] = true
	st.pc = append(st.pc, t)
	if t.free {
		return
	}
	st.learn(t)
}

func (st *State) learnLe(l lin) {
	// L + k <= 0
	u := new(big.Int).Neg(l.k)
	if len(l.ts) >= 2 {
		k := linKey(l)
		old := st.lmaxOf(l)
		if old == nil || u.Cmp(old) < 0 {
			st.facts.lmax[k] = u
		}
	}
	for i, a := range l.ts {
		// c_i * a <= u - sum_{j!=i} c_j a_j  (use lower bounds of the others)
		rest := u
		for j, b := range l.ts {
			if j == i {
				continue
			}
			bl, bh := st.bounds0(b)
			lo, _ := scaleB(l.cs[j], bl, bh)
			if lo == nil {
				rest = nil
				break
			}
			rest = new(big.Int).Sub(rest, lo)
		}
		if rest == nil {
			continue
		}
		if l.cs[i].Sign() > 0 {
			st.setBnd(a, nil, floorDiv(rest, l.cs[i]))
		} else {
			// a >= rest / c_i rounding up: a >= ceil(-rest/|c|)
			n := new(big.Int).Neg(l.cs[i])
			q := new(big.Int).Neg(floorDiv(rest, n))
			st.setBnd(a, q, nil)
		}
	}
}

func (st *State) learn(t *Term) {
	c := st.x.c
	switch t.op {
	case OLe:
		st.learnLe(c.toLin(t.args[0]))
	case OEq:
		if len(t.args) == 1 {
			l := c.toLin(t.args[0])
			st.learnLe(l)
			st.learnLe(negLin(l))
		}
	case ONot:
		a := t.args[0]
		if a.op == OEq && len(a.args) == 1 {
			l := c.toLin(a.args[0])
			if len(l.ts) == 1 && new(big.Int).Abs(l.cs[0]).Cmp(big1) == 0 {
				// x != v
				v := new(big.Int).Neg(l.k)
				if l.cs[0].Sign() < 0 {
					v = l.k
				}
				lo, hi := st.bounds(l.ts[0])
				if lo != nil && lo.Cmp(v) == 0 {
					st.setBnd(l.ts[0], new(big.Int).Add(v, big1), nil)
				}
				if hi != nil && hi.Cmp(v) == 0 {
					st.setBnd(l.ts[0], nil, new(big.Int).Sub(v, big1))
				}
			}
		}
	}
}

// alloc makes a fresh object reference.
func (st *State) alloc() *Term {
	st.na++
	return st.x.c.Int(int64(-st.na))
}
