package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Name    string
	Kind    string
	Pos     string
	OK      bool
	By      string
	Count   int
	Reason  string
	Model   string
	Trace   []string
	Goal    string
	Seconds float64
}

type Exec struct {
	c        *Ctx
	sess     *Session
	L        *Loader
	U        *Unit
	leafMemo map[types.Type][]Leaf
	initHeap map[string]*HM
	keyLeaf  map[string]Leaf

	regN    int64
	reg     map[string]interface{} // id -> *Loc | *FnVal | *Val (box) | *StrObj
	regKey  map[string]*Term
	tagOf   map[string]int64
	tagType []types.Type

	work         []*State
	obs          map[string]*Oblig
	obOrder      []string
	cache        map[string]bool
	assume       map[string]bool
	inlined      map[string]bool
	usedCon      map[string]bool
	usedMod      map[string]bool
	paths        int
	ends         int // paths reaching the end of the unit
	liveEnd      bool
	unsup        map[string]bool
	base         *State
	globals      map[*ssa.Global]*Term
	houd         map[string][]bool
	steps        int
	maxStep      int
	failEnd      time.Time // after a definite failure the unit is not followed much further
	abort        string
	objN         int64
	unknownCalls map[string]bool
	loopStats    map[string]string
	debug        bool
	timeoutMs    int
	debugScript  bool
	ran          map[string]bool
	objs         map[string]*Term
	useMemo      map[string]*Script
}

func NewExec(L *Loader, U *Unit) *Exec {
	c := NewCtx()
	x := &Exec{c: c, L: L, U: U, leafMemo: map[types.Type][]Leaf{}, initHeap: map[string]*HM{}, keyLeaf: map[string]Leaf{},
		reg: map[string]interface{}{}, regKey: map[string]*Term{}, tagOf: map[string]int64{}, obs: map[string]*Oblig{}, cache: map[string]bool{},
		assume: map[string]bool{}, inlined: map[string]bool{}, usedCon: map[string]bool{}, usedMod: map[string]bool{}, unsup: map[string]bool{},
		globals: map[*ssa.Global]*Term{}, houd: map[string][]bool{}, maxStep: 3000000, unknownCalls: map[string]bool{}, loopStats: map[string]string{}, timeoutMs: 4000 * timeScale, ran: map[string]bool{}, objs: map[string]*Term{}, useMemo: map[string]*Script{}}
	x.tagType = []types.Type{nil}
	x.sess = NewSession(c)
	if p := os.Getenv("GVC_SMTLOG"); p != "" {
		x.sess.log, _ = os.Create(p)
	}
	x.debug = os.Getenv("GVC_DEBUG") != ""
	return x
}

func (x *Exec) newState() *State {
	return &State{x: x, heap: map[string]*HM{}, facts: newFacts(nil), writes: nil}
}

// ---- registry

func (x *Exec) register(key string, obj interface{}) *Term {
	if key != "" {
		if t, ok := x.regKey[key]; ok {
			return t
		}
	}
	x.regN++
	t := x.c.Int(-(1 << 50) - x.regN)
	x.reg[t.val.String()] = obj
	if key != "" {
		x.regKey[key] = t
	}
	return t
}

func (x *Exec) lookup(t *Term) interface{} {
	if t.op != OConst {
		return nil
	}
	return x.reg[t.val.String()]
}

func (x *Exec) tag(t types.Type) int64 {
	t = types.Unalias(t)
	k := types.TypeString(t, nil)
	if n, ok := x.tagOf[k]; ok {
		return n
	}
	n := int64(len(x.tagType))
	x.tagType = append(x.tagType, t)
	x.tagOf[k] = n
	return n
}

func (l Loc) regKey() string {
	i := "-"
	if l.idx != nil {
		i = fmt.Sprint(l.idx.id)
	}
	r := ""
	if l.rein != nil {
		r = l.rein.String()
	}
	return fmt.Sprintf("loc|%s|%d|%s|%s|%s", l.root, l.ref.id, l.path, i, r)
}

// mkPtr encodes a location as a pointer value.
func (x *Exec) mkPtr(l Loc, t types.Type) Val {
	if l.path == "" && l.idx == nil && l.rein == nil {
		return Val{t, []*Term{l.ref}}
	}
	lc := l
	return Val{t, []*Term{x.register(l.regKey(), &lc)}}
}

func rootOf(elem types.Type) string {
	if s, ok := under(elem).(*types.Slice); ok && isSlice(s.Elem()) {
		return "cell:" + typeKey(elem) // a variable holding a slice of slices is not an element of a slice of slices
	}
	if a, ok := under(elem).(*types.Array); ok {
		return "@" + typeKey(a.Elem())
	}
	return typeKey(elem)
}

func (x *Exec) ptrLoc(v Val) Loc {
	if l, ok := x.lookup(v.L[0]).(*Loc); ok {
		return *l
	}
	p, ok := under(v.T).(*types.Pointer)
	if !ok {
		return Loc{root: typeKey(v.T), ref: v.L[0]}
	}
	return Loc{root: rootOf(p.Elem()), ref: v.L[0]}
}

// memLoc is the location of element i (absolute index) of the memory behind a slice base.
func (x *Exec) memLoc(base *Term, elem types.Type, i *Term) Loc {
	if l, ok := x.lookup(base).(*Loc); ok {
		return Loc{root: l.root, ref: l.ref, path: l.path + "[]", idx: i}
	}
	return Loc{root: "[]" + typeKey(elem), ref: base, idx: i}
}

func (st *State) getArr(base *Term, elem types.Type, lf Leaf) *Arr {
	l := st.x.memLoc(base, elem, st.x.c.zero)
	k, _ := l.key(lf.Path)
	return st.readHMArr(st.x.heapMap(st, k, true, lf), l.ref)
}

func (st *State) setArr(base *Term, elem types.Type, lf Leaf, a *Arr) {
	l := st.x.memLoc(base, elem, st.x.c.zero)
	k, _ := l.key(lf.Path)
	h := st.x.heapMap(st, k, true, lf)
	st.noteWrite(k, l.ref)
	st.writeHM(h, l.ref, nil, a)
}

// ---- values

func (x *Exec) zero(t types.Type) Val {
	ls := x.leaves(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = x.zeroOf(l.Sort)
		if l.Kind == 's' {
			v.L[i] = x.strLit("").L[0]
		}
	}
	return v
}

func (x *Exec) strLit(s string) Val {
	id := x.register("str|"+s, &StrObj{lit: s, isLit: true})
	return Val{types.Typ[types.String], []*Term{id, x.c.zero, x.c.Int(int64(len(s)))}}
}

func (st *State) newStr(o *StrObj, n *Term) Val {
	x := st.x
	st.na++
	id := x.register("", o)
	return Val{types.Typ[types.String], []*Term{id, x.c.zero, n}}
}

func (st *State) fresh(name string, t types.Type, initial bool) Val {
	x := st.x
	ls := x.leaves(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		lo := l.Lo
		if initial && (l.Kind == 'p' || l.Kind == 'd' || l.Kind == 's') {
			lo = big0
		}
		hi := l.Hi
		if initial && l.Kind == 'p' {
			hi = maxInitRef // memory handed in by a caller is not the package's own variables
		}
		v.L[i] = x.c.Fresh(name+l.Path, l.Sort, lo, hi)
		if l.Kind == 's' {
			// whole opaque string
		}
	}
	st.typeFacts(v)
	return v
}

func (st *State) strAt(v Val, i *Term) *Term {
	x := st.x
	c := x.c
	j := c.Add(v.L[1], i)
	switch o := x.lookup(v.L[0]).(type) {
	case *StrObj:
		if o.isLit {
			if n, ok := j.Int64(); ok {
				if n >= 0 && n < int64(len(o.lit)) {
					return c.Int(int64(o.lit[n]))
				}
				return c.zero
			}
			r := c.zero
			for k := len(o.lit) - 1; k >= 0; k-- {
				r = c.Ite(st.decide(c.Eq(j, c.Int(int64(k)))), c.Int(int64(o.lit[k])), r)
			}
			return r
		}
		if o.mem != nil {
			l := *o.mem
			l.idx = c.Add(l.idx, j)
			return st.loadLeaf(l, x.byteLeaf())
		}
		return st.readArr(o.arr, j)
	}
	return c.App(c.DeclUF("strat", 2, SInt, big0, big255), v.L[0], j)
}

func (x *Exec) byteLeaf() Leaf { return x.leaves(types.Typ[types.Uint8])[0] }

func (x *Exec) litOf(v Val) (string, bool) {
	if v.L[2] == x.c.zero {
		return "", true
	}
	o, ok := x.lookup(v.L[0]).(*StrObj)
	if !ok || !o.isLit {
		return "", false
	}
	a, ok1 := v.L[1].Int64()
	n, ok2 := v.L[2].Int64()
	if !ok1 || !ok2 || a < 0 || a+n > int64(len(o.lit)) {
		return "", false
	}
	return o.lit[a : a+n], true
}

// strID is a term equal for equal strings (and possibly different for equal ones built differently).
func (st *State) strID(v Val) *Term {
	x := st.x
	c := x.c
	if s, ok := x.litOf(v); ok {
		return x.strLit(s).L[0]
	}
	if x.lookup(v.L[0]) == nil && v.L[1] == c.zero {
		// whole opaque string or prefix of it
		return c.Ite(c.Eq(v.L[2], c.App(c.DeclUF("strlen", 1, SInt, big0, maxLen), v.L[0])), v.L[0], c.App(c.DeclUF("strid", 3, SInt, nil, nil), v.L...))
	}
	return c.App(c.DeclUF("strid", 3, SInt, nil, nil), v.L...)
}

func (st *State) strEq(a, b Val) *Term {
	x := st.x
	c := x.c
	if a.L[0] == b.L[0] && a.L[1] == b.L[1] && a.L[2] == b.L[2] {
		return c.T
	}
	la, oka := x.litOf(a)
	lb, okb := x.litOf(b)
	if oka && okb {
		return c.Bool(la == lb)
	}
	if oka {
		a, b, la, lb, oka, okb = b, a, lb, la, okb, oka
	}
	if okb && len(lb) <= 80 {
		cs := []*Term{c.Eq(a.L[2], c.Int(int64(len(lb))))}
		if st.decide(cs[0]) == c.F {
			return c.F
		}
		if lb == "" {
			return cs[0]
		}
		for i := 0; i < len(lb); i++ {
			cs = append(cs, c.Eq(st.strAt(a, c.Int(int64(i))), c.Int(int64(lb[i]))))
		}
		if x.lookup(a.L[0]) == nil {
			// opaque: tie identity and content
			id := st.strID(a)
			lid := x.strLit(lb).L[0]
			st.fact(c.Imp(c.Eq(id, lid), c.And(cs...)))
			st.fact(c.Imp(c.And(cs...), c.Eq(id, lid)))
			return c.Eq(id, lid)
		}
		return c.And(cs...)
	}
	if _, ok := x.lookup(a.L[0]).(*StrObj); ok {
		if _, ok := x.lookup(b.L[0]).(*StrObj); ok {
			n, ok := a.L[2].Int64()
			if !ok {
				n, ok = b.L[2].Int64()
			}
			if ok && n <= 80 {
				cs := []*Term{c.Eq(a.L[2], b.L[2])}
				if st.decide(cs[0]) == c.F {
					return c.F
				}
				for i := int64(0); i < n; i++ {
					cs = append(cs, c.Eq(st.strAt(a, c.Int(i)), st.strAt(b, c.Int(i))))
				}
				return c.And(cs...)
			}
		}
	}
	return c.And(c.Eq(a.L[2], b.L[2]), c.Eq(st.strID(a), st.strID(b)))
}

// box encodes a value as interface data.
func (x *Exec) box(v Val) *Term {
	if len(v.L) == 1 {
		if v.L[0].sort == SBool {
			return x.c.Ite(v.L[0], x.c.one, x.c.zero)
		}
		return v.L[0]
	}
	if len(v.L) == 0 {
		return x.c.zero
	}
	var b strings.Builder
	b.WriteString("box|" + types.TypeString(v.T, nil))
	for _, t := range v.L {
		fmt.Fprintf(&b, ",%d", t.id)
	}
	vv := v
	return x.register(b.String(), &vv)
}

func (st *State) unbox(d *Term, t types.Type) Val {
	x := st.x
	ls := x.leaves(t)
	if len(ls) == 1 {
		if ls[0].Sort == SBool {
			return Val{t, []*Term{x.c.Not(x.c.Eq(d, x.c.zero))}}
		}
		if isInt(t) && d.op != OConst {
			// data of this type is within the type's range
			if ls[0].Lo != nil {
				st.fact(x.c.Le(x.c.Big(ls[0].Lo), d))
				st.fact(x.c.Le(d, x.c.Big(ls[0].Hi)))
			}
		}
		return Val{t, []*Term{d}}
	}
	if len(ls) == 0 {
		return Val{T: t}
	}
	if v, ok := x.lookup(d).(*Val); ok && len(v.L) == len(ls) {
		return Val{t, v.L}
	}
	v := Val{T: t}
	for _, l := range ls {
		u := x.c.DeclUF("unbox."+typeKey(t)+l.Path, 1, l.Sort, l.Lo, l.Hi)
		v.L = append(v.L, x.c.App(u, d))
	}
	st.typeFacts(v)
	return v
}

func (x *Exec) mkIface(v Val, it types.Type) Val {
	return Val{it, []*Term{x.c.Int(x.tag(v.T)), x.box(v)}}
}

func (st *State) ifaceEq(a, b Val) *Term {
	x := st.x
	c := x.c
	tagEq := st.decide(c.Eq(a.L[0], b.L[0]))
	if tagEq == c.F {
		return c.F
	}
	if a.L[0] == c.zero || b.L[0] == c.zero {
		return tagEq
	}
	de := c.Eq(a.L[1], b.L[1])
	if n, ok := a.L[0].Int64(); ok && n > 0 {
		t := x.tagType[n]
		if isString(t) {
			if m, ok := b.L[0].Int64(); ok && m == n {
				return st.strEq(st.unbox(a.L[1], t), st.unbox(b.L[1], t))
			}
		}
	}
	return c.And(tagEq, c.Or(c.Eq(a.L[0], c.zero), de))
}

func (st *State) valEq(a, b Val) *Term {
	c := st.x.c
	t := a.T
	switch {
	case isString(t):
		return st.strEq(a, b)
	case isIface(t) && isIface(b.T):
		return st.ifaceEq(a, b)
	case isIface(t):
		return st.ifaceEq(a, st.x.mkIface(b, t))
	case isIface(b.T):
		return st.ifaceEq(st.x.mkIface(a, b.T), b)
	case isSlice(t):
		return c.Eq(a.L[0], b.L[0]) // comparison with nil
	}
	if s, ok := under(t).(*types.Struct); ok {
		var cs []*Term
		i := 0
		for k := 0; k < s.NumFields(); k++ {
			n := len(st.x.leaves(s.Field(k).Type()))
			ft := s.Field(k).Type()
			cs = append(cs, st.valEq(Val{ft, a.L[i : i+n]}, Val{ft, b.L[i : i+n]}))
			i += n
		}
		return c.And(cs...)
	}
	var cs []*Term
	for i := range a.L {
		cs = append(cs, c.Eq(a.L[i], b.L[i]))
	}
	return c.And(cs...)
}

func (x *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return Val{t, []*Term{x.c.Bool(constant.BoolVal(k.Value))}}
	case constant.String:
		v := x.strLit(constant.StringVal(k.Value))
		v.T = t
		return v
	case constant.Int, constant.Float:
		if isInt(t) {
			v := constant.ToInt(k.Value)
			n, ok := new(big.Int).SetString(v.ExactString(), 10)
			if ok {
				return Val{t, []*Term{x.c.Big(n)}}
			}
		}
		return Val{t, []*Term{x.c.Var("float:"+k.Value.ExactString(), SInt, nil, nil)}}
	}
	return x.zero(t)
}

func (st *State) val(f *Frame, v ssa.Value) Val {
	x := st.x
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.Function:
		return x.fnVal(v, nil, v.Type())
	}
	r, ok := f.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, f.fn))
	}
	return r
}

func (x *Exec) fnVal(fn *ssa.Function, binds []Val, t types.Type) Val {
	var b strings.Builder
	b.WriteString("fn|" + fn.String())
	for _, v := range binds {
		for _, l := range v.L {
			fmt.Fprintf(&b, ",%d", l.id)
		}
	}
	return Val{t, []*Term{x.register(b.String(), &FnVal{fn, binds})}}
}

func (x *Exec) globalPtr(g *ssa.Global) Val {
	t, ok := x.globals[g]
	if !ok {
		t = x.c.Int(1<<59 + int64(len(x.globals)))
		x.globals[g] = t
	}
	return Val{g.Type(), []*Term{t}}
}

// ---- proving

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.L.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, x.L.repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) oblig(name, kind, pos string) *Oblig {
	o := x.obs[name]
	if o == nil {
		o = &Oblig{Name: name, Kind: kind, Pos: pos, OK: true}
		x.obs[name] = o
		x.obOrder = append(x.obOrder, name)
	}
	return o
}

// valid says whether goal follows from the state's path condition (session solver only).
func (st *State) valid(goal *Term, ms int) bool {
	g := st.simpBool(goal)
	if g == st.x.c.T {
		return true
	}
	if g == st.x.c.F && len(st.pc) == 0 {
		return false
	}
	return st.x.sess.Check(st.pc, []*Term{st.x.c.Not(g)}, ms) == Unsat
}

func (st *State) prove(goal *Term, kind, name, pos string) bool {
	x := st.x
	if st.dead {
		return true
	}
	if st.mode != nil {
		st.fact(goal)
		return true
	}
	o := x.oblig(name, kind, pos)
	o.Count++
	if os.Getenv("GVC_TIMES") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > time.Second {
				fmt.Fprintf(os.Stderr, "TIME %.1fs %s @%s %v by %s size %d\n", d.Seconds(), name, pos, o.OK, o.By, len(goal.String()))
			}
		}()
	}
	g := st.simpBool(goal)
	if g == x.c.T {
		if o.By == "" {
			o.By = "simplifier"
		}
		return true
	}
	if !o.OK {
		st.fact(goal)
		return false
	}
	r := x.sess.Check(st.pc, []*Term{x.c.Not(g)}, x.timeoutMs)
	by := "z3-5.3.2"
	if r != Unsat {
		var model string
		if r == Sat {
			model = x.modelText(st)
		}
		r2 := r
		if r != Sat {
			t1 := time.Now()
			r2, by = Portfolio(x.c, st.pc, []*Term{x.c.Not(g)}, 25*timeScale)
			// where a fresh solver is much quicker, the session is given less time
			if d := int(time.Since(t1).Milliseconds()); r2 == Unsat && r == Unknown && d < x.timeoutMs/2 && x.timeoutMs > 300 {
				x.timeoutMs = max(300, x.timeoutMs/2)
			}
		}
		if r2 != Unsat {
			o.OK = false
			if r2 == Sat && x.failEnd.IsZero() {
				x.failEnd = time.Now().Add(45 * time.Second)
			}
			o.Reason = "solver answer: " + r2.String()
			o.Model = model
			o.Trace = append([]string{}, st.trace...)
			o.Goal = g.String()
			if o.Pos == "" {
				o.Pos = pos
			}
			st.fact(goal)
			if x.debug {
				fmt.Fprintf(os.Stderr, "FAILED %s\n goal %s\n trace %v\n model %s\n", name, g, st.trace, model)
				for _, p := range st.pc {
					fmt.Fprintf(os.Stderr, "   pc %s\n", p)
				}
			}
			return false
		}
	}
	if crossCheck && r == Unsat {
		// a second opinion from a fresh process of another solver
		switch r2, _ := Portfolio(x.c, st.pc, []*Term{x.c.Not(g)}, 10); r2 {
		case Unsat:
			atomic.AddInt64(&crossYes, 1)
		case Sat:
			o.OK = false
			o.Reason = "solvers disagree"
			o.Goal = g.String()
			st.fact(goal)
			return false
		default:
			atomic.AddInt64(&crossUnknown, 1)
		}
	}
	o.By = by
	st.fact(goal)
	return true
}

var timeScale = 1

// deadline ends the verification of every unit; obligations not discharged by then count as failed.
var deadline time.Time
var crossCheck bool
var crossYes, crossUnknown int64

func (x *Exec) modelText(st *State) string {
	seen := map[int]bool{}
	var vs []*Term
	for _, t := range st.pc {
		collectVars(t, seen, &vs)
	}
	if len(vs) > 60 {
		vs = vs[:60]
	}
	m := x.sess.Values(vs)
	var out []string
	for _, v := range vs {
		n := quoteName(v.name)
		if s, ok := m[n]; ok {
			out = append(out, v.name+"="+s)
		}
	}
	return strings.Join(out, " ")
}

func collectVars(t *Term, seen map[int]bool, out *[]*Term) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OVar && !t.free {
		*out = append(*out, t)
	}
	for _, a := range t.args {
		collectVars(a, seen, out)
	}
}

// feasible checks the path condition with an extra condition.
func (st *State) feasible(extra *Term) bool {
	if os.Getenv("GVC_TIMES") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 500*time.Millisecond {
				fmt.Fprintf(os.Stderr, "TIME %.1fs feasible\n", d.Seconds())
			}
		}()
	}
	return st.x.sess.Check(st.pc, []*Term{extra}, 1500) != Unsat
}

// fork splits on a condition; results may be nil.
func (st *State) fork(cd *Term, why string) (*State, *State) {
	a, b := st.fork0(cd, why)
	if a != nil {
		a.mix(1)
	}
	if b != nil {
		b.mix(2)
	}
	return a, b
}

func (st *State) fork0(cd *Term, why string) (*State, *State) {
	x := st.x
	cd = st.simpBool(cd)
	if cd == x.c.T {
		return st, nil
	}
	if cd == x.c.F {
		return nil, st
	}
	ft := st.feasible(cd)
	if !ft {
		st.fact(x.c.Not(cd))
		return nil, st
	}
	if !st.feasible(x.c.Not(cd)) {
		st.fact(cd)
		return st, nil
	}
	o := st.clone()
	st.fact(cd)
	o.fact(x.c.Not(cd))
	if why != "" {
		st.trace = append(st.trace, why+" true")
		o.trace = append(o.trace, why+" false")
	}
	return st, o
}

func (x *Exec) unsupported(st *State, what string) {
	x.unsup[what] = true
	if st.mode == nil {
		o := x.oblig("supported:"+what, "unsupported", "")
		o.OK = false
		o.Count++
		o.Reason = "construct outside the verifier's subset: " + what
	}
	st.dead = true
}

// ---- running

func (x *Exec) run(init *State, catch func(st *State) bool) {
	work := []*State{init}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for !st.dead && len(st.frames) > 0 {
			if x.abort != "" {
				return
			}
			x.steps++
			if x.steps > x.maxStep {
				x.abort = "step limit"
				return
			}
			if x.steps%16 == 0 {
				now := time.Now()
				if !deadline.IsZero() && now.After(deadline) {
					x.abort = "time budget used up"
					return
				}
				if !x.failEnd.IsZero() && now.After(x.failEnd) {
					x.abort = "an obligation failed, the remaining paths were not followed"
					return
				}
			}
			if catch != nil && catch(st) {
				break
			}
			more := x.step(st)
			work = append(work, more...)
		}
		x.paths++
	}
}

// step runs one instruction; it returns additional states created by forks.
func (x *Exec) step(st *State) (more []*State) {
	f := st.top()
	if f.sc != nil {
		return x.stepScript(st, f)
	}
	if f.pc >= len(f.block.Instrs) {
		panic("fell off block in " + f.fn.String())
	}
	in := f.block.Instrs[f.pc]
	return x.instr(st, f, in)
}

func (st *State) finish(res []Val) {
	// return from the top frame with results
	f := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if f.onRet != nil {
		f.onRet(st, res)
		return
	}
	if len(st.frames) == 0 {
		return
	}
	p := st.top()
	st.deliver(p, res)
}

func tupleVal(res []Val) Val {
	var v Val
	var vars []*types.Var
	for _, r := range res {
		v.L = append(v.L, r.L...)
		vars = append(vars, types.NewVar(0, nil, "", r.T))
	}
	v.T = types.NewTuple(vars...)
	return v
}

// deliver hands the results of a call to the frame that made it.
func (st *State) deliver(p *Frame, res []Val) {
	if p.sc != nil {
		st.scriptDeliver(p, res)
		return
	}
	if p.rundef {
		p.rundef = false
		return // RunDefers is executed again
	}
	if p.call != nil {
		if len(res) == 1 {
			r := res[0]
			r.T = p.call.Type()
			p.env[p.call] = r
		} else if len(res) > 1 {
			p.env[p.call] = tupleVal(res)
		}
		p.call = nil
	}
	p.pc++
}

func (x *Exec) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	f.prev = f.block
	f.block = to
	f.pc = 0
	st.mix(1000 + to.Index)
	// evaluate phis simultaneously
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == f.prev {
				v := st.val(f, ph.Edges[i])
				v.T = ph.Type()
				vals = append(vals, v)
				break
			}
		}
		phis = append(phis, ph)
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
		if ph.Comment != "" {
			f.dbg[ph.Comment] = vals[i]
		}
	}
	f.pc = len(phis)
}

func (st *State) pushGo(fn *ssa.Function, args []Val, binds []Val) *Frame {
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]Val{}, dbg: map[string]Val{}}
	for i, p := range fn.Params {
		a := args[i]
		a.T = p.Type()
		f.env[p] = a
		f.dbg[p.Name()] = a
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = binds[i]
		f.dbg["&"+fv.Name()] = binds[i]
	}
	st.frames = append(st.frames, f)
	return f
}

func opName(in ssa.Instruction) string {
	return strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa.")
}

// obName names an obligation after the code it is about, not its line.
func (f *Frame) obName(kind string, in ssa.Instruction) string {
	ord := 0
	for _, b := range f.fn.Blocks {
		for _, i := range b.Instrs {
			if i == in {
				return fmt.Sprintf("%s/%s#%d", fnKey(f.fn), kind, ord)
			}
			if fmt.Sprintf("%T", i) == fmt.Sprintf("%T", in) {
				ord++
			}
		}
	}
	return fnKey(f.fn) + "/" + kind
}

func (x *Exec) instr(st *State, f *Frame, in ssa.Instruction) (more []*State) {
	c := x.c
	set := func(v ssa.Value, r Val) {
		r.T = v.Type()
		f.env[v] = r
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		if !in.IsAddr {
			if id, ok := in.Expr.(interface{ String() string }); ok {
				if v, ok := f.env[in.X]; ok {
					f.dbg[id.String()] = v
				}
			}
		} else if id, ok := in.Expr.(interface{ String() string }); ok {
			if v, ok := f.env[in.X]; ok {
				f.dbg["&"+id.String()] = v
			}
		}
		f.pc++
	case *ssa.Alloc:
		elem := in.Type().(*types.Pointer).Elem()
		ref := st.alloc()
		_ = elem
		f.env[in] = Val{in.Type(), []*Term{ref}}
		if in.Comment != "" {
			f.dbg["&"+in.Comment] = f.env[in]
		}
		f.pc++
	case *ssa.UnOp:
		return x.unop(st, f, in)
	case *ssa.BinOp:
		a, b := st.val(f, in.X), st.val(f, in.Y)
		r := x.binop(st, f, in, in.Op, a, b, in.Type())
		if st.dead {
			return nil
		}
		set(in, r)
		f.pc++
	case *ssa.FieldAddr:
		p := st.val(f, in.X)
		l := x.ptrLoc(p)
		x.nonNil(st, f, in, p)
		s := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
		l.path += "." + s.Field(in.Field).Name()
		f.env[in] = x.mkPtr(l, in.Type())
		f.pc++
	case *ssa.Field:
		v := st.val(f, in.X)
		set(in, x.field(v, in.Field))
		f.pc++
	case *ssa.IndexAddr:
		return x.indexAddr(st, f, in)
	case *ssa.Index:
		v := st.val(f, in.X)
		i := st.val(f, in.Index).L[0]
		if isString(v.T) {
			x.inBounds(st, f, in, i, v.L[2])
			set(in, Val{in.Type(), []*Term{st.strAt(v, i)}})
			f.pc++
			return nil
		}
		a := under(v.T).(*types.Array)
		n := len(x.leaves(a.Elem()))
		x.inBounds(st, f, in, i, c.Int(a.Len()))
		r := Val{a.Elem(), make([]*Term, n)}
		for k := 0; k < n; k++ {
			var t *Term
			for j := a.Len() - 1; j >= 0; j-- {
				e := v.L[int(j)*n+k]
				if t == nil {
					t = e
				} else {
					t = c.Ite(st.decide(c.Eq(i, c.Int(j))), e, t)
				}
			}
			r.L[k] = t
		}
		set(in, r)
		f.pc++
	case *ssa.Store:
		p := st.val(f, in.Addr)
		x.nonNil(st, f, in, p)
		l := x.ptrLoc(p)
		if !x.guard(st, f, in, l, true) {
			return nil
		}
		v := st.val(f, in.Val)
		v.T = under(in.Addr.Type()).(*types.Pointer).Elem()
		st.store(l, v)
		f.pc++
	case *ssa.Phi:
		f.pc++
	case *ssa.If:
		cd := st.val(f, in.Cond).L[0]
		why := x.posOf(in.Cond.Pos())
		a, b := st.fork(cd, why)
		t0, t1 := f.block.Succs[0], f.block.Succs[1]
		if a != nil {
			more = append(more, x.goTo(a, t0)...)
		}
		if b != nil {
			bm := x.goTo(b, t1)
			if a != nil {
				more = append(more, b)
			}
			more = append(more, bm...)
		}
		return more
	case *ssa.Jump:
		return x.goTo(st, f.block.Succs[0])
	case *ssa.Return:
		var res []Val
		sig := f.fn.Signature.Results()
		for i, r := range in.Results {
			v := st.val(f, r)
			v.T = sig.At(i).Type()
			res = append(res, v)
		}
		st.finish(res)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return nil
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		f.rundef = true
		f.call = nil
		return x.invoke(st, f, d.call, d.fn, d.args, d.dyn, in, nil)
	case *ssa.Defer:
		fn, args, dyn := x.resolveCall(st, f, &in.Call, in)
		if st.dead {
			return nil
		}
		f.defers = append(f.defers, deferred{fn, args, &in.Call, dyn})
		f.pc++
	case *ssa.Go:
		fn, args, dyn := x.resolveCall(st, f, &in.Call, in)
		if st.dead {
			return nil
		}
		_ = args
		name := "dynamic function"
		if fn != nil {
			name = fnKey(fn)
		}
		_ = dyn
		if m := x.U.spec.models["go"]; m != nil {
			f.call = nil
			x.usedMod["go"] = true
			if dyn == nil && fn != nil {
				d := x.fnVal(fn, nil, fn.Signature)
				dyn = &d
			}
			if dyn == nil {
				d := Val{types.NewSignatureType(nil, nil, nil, nil, nil, false), []*Term{c.zero}}
				dyn = &d
			}
			st.pushScript(m, append([]Val{*dyn}, args...)[:len(m.params)], nil, in.Pos())
			return nil
		}
		x.assume["go statement: "+name+" started concurrently is verified separately"] = true
		f.pc++
	case *ssa.Call:
		return x.callInstr(st, f, in)
	case *ssa.Extract:
		t := st.val(f, in.Tuple)
		tt := in.Tuple.Type().(*types.Tuple)
		o := 0
		for i := 0; i < in.Index; i++ {
			o += len(x.leaves(tt.At(i).Type()))
		}
		n := len(x.leaves(tt.At(in.Index).Type()))
		set(in, Val{in.Type(), t.L[o : o+n]})
		f.pc++
	case *ssa.Slice:
		return x.sliceOp(st, f, in)
	case *ssa.MakeSlice:
		n := st.val(f, in.Len).L[0]
		cp := st.val(f, in.Cap).L[0]
		st.prove(c.And(c.Le(c.zero, n), c.Le(n, cp)), "safety", f.obName("makeslice-size-valid", in), x.posOf(in.Pos()))
		st.fact(c.Le(cp, c.Big(maxLen)))
		f.env[in] = Val{in.Type(), []*Term{st.alloc(), c.zero, n, cp}}
		f.pc++
	case *ssa.MakeMap:
		f.env[in] = Val{in.Type(), []*Term{st.alloc()}}
		f.pc++
	case *ssa.MakeChan:
		f.env[in] = Val{in.Type(), []*Term{st.alloc()}}
		f.pc++
	case *ssa.MakeClosure:
		var binds []Val
		for _, b := range in.Bindings {
			binds = append(binds, st.val(f, b))
		}
		f.env[in] = x.fnVal(in.Fn.(*ssa.Function), binds, in.Type())
		f.pc++
	case *ssa.MakeInterface:
		v := st.val(f, in.X)
		v.T = in.X.Type()
		f.env[in] = x.mkIface(v, in.Type())
		f.pc++
	case *ssa.ChangeInterface, *ssa.ChangeType:
		ops := in.(ssa.Instruction).Operands(nil)
		set(in.(ssa.Value), st.val(f, *ops[0]))
		f.pc++
	case *ssa.Convert:
		return x.convert(st, f, in)
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, in)
	case *ssa.MapUpdate:
		m := st.val(f, in.Map)
		st.prove(c.Not(c.Eq(m.L[0], c.zero)), "safety", f.obName("map-not-nil", in), x.posOf(in.Pos()))
		if !x.guardMap(st, f, in, m, true) {
			return nil
		}
		k := st.val(f, in.Key)
		v := st.val(f, in.Value)
		v.T = under(in.Map.Type()).(*types.Map).Elem()
		x.mapSet(st, m, k, v)
		f.pc++
	case *ssa.Lookup:
		m := st.val(f, in.X)
		k := st.val(f, in.Index)
		if isString(m.T) {
			x.inBounds(st, f, in, k.L[0], m.L[2])
			set(in, Val{in.Type(), []*Term{st.strAt(m, k.L[0])}})
			f.pc++
			return nil
		}
		if !x.guardMap(st, f, in, m, false) {
			return nil
		}
		if cd := x.mapChoice(st, m, k); cd != nil {
			a, b := st.fork(cd, x.posOf(in.Pos()))
			if a != nil && b != nil {
				return []*State{b}
			}
			return nil
		}
		v, ok := x.mapGet(st, m, k)
		if in.CommaOk {
			set(in, Val{in.Type(), append(append([]*Term{}, v.L...), ok)})
		} else {
			set(in, v)
		}
		f.pc++
	case *ssa.Range:
		f.env[in] = st.val(f, in.X)
		f.pc++
	case *ssa.Next:
		tt := in.Type().(*types.Tuple)
		if in.IsString {
			x.unsupported(st, "range over string in "+fnKey(f.fn))
			return nil
		}
		ok := c.Fresh("next.ok", SBool, nil, nil)
		m := f.env[in.Iter]
		mt := under(m.T).(*types.Map)
		k := st.fresh("next.key", mt.Key(), false)
		kk := x.mapKey(st, k)
		dom := x.mapDom(st, m)
		st.fact(c.Imp(ok, st.readArr(dom, kk)))
		v, _ := x.mapGet(st, m, k)
		L := []*Term{ok}
		for i, vv := range []Val{k, v} {
			n := len(x.leaves(tt.At(i + 1).Type()))
			if n == len(vv.L) {
				L = append(L, vv.L...)
			} else {
				L = append(L, x.zero(tt.At(i+1).Type()).L...)
			}
		}
		set(in, Val{in.Type(), L})
		f.pc++
	case *ssa.Panic:
		st.prove(c.F, "safety", f.obName("panic-unreachable", in), x.posOf(in.Pos()))
		st.dead = true
	case *ssa.Send:
		f.pc++
	case *ssa.SliceToArrayPointer:
		v := st.val(f, in.X)
		at := in.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		st.prove(c.Le(c.Int(at.Len()), v.L[2]), "safety", f.obName("array-conversion", in), x.posOf(in.Pos()))
		if v.L[1] == c.zero {
			f.env[in] = Val{in.Type(), []*Term{v.L[0]}}
			f.pc++
		} else {
			x.unsupported(st, "slice to array pointer with offset")
		}
	default:
		x.unsupported(st, opName(in)+" in "+fnKey(f.fn))
	}
	return nil
}

func (x *Exec) nonNil(st *State, f *Frame, in ssa.Instruction, p Val) {
	if in == nil && f.fn != nil {
		in = f.block.Instrs[f.pc]
	}
	c := x.c
	r := p.L[0]
	if r.op == OConst {
		if r.val.Sign() != 0 {
			return
		}
	}
	st.prove(c.Not(c.Eq(r, c.zero)), "safety", f.obName("non-nil", in), x.posOf(in.Pos()))
}

func (x *Exec) inBounds(st *State, f *Frame, in ssa.Instruction, i, n *Term) {
	c := x.c
	st.prove(c.And(c.Le(c.zero, i), c.Lt(i, n)), "safety", f.obName("index-in-bounds", in), x.posOf(in.Pos()))
}

func (x *Exec) field(v Val, i int) Val {
	s := under(v.T).(*types.Struct)
	o := 0
	for k := 0; k < i; k++ {
		o += len(x.leaves(s.Field(k).Type()))
	}
	n := len(x.leaves(s.Field(i).Type()))
	return Val{s.Field(i).Type(), v.L[o : o+n]}
}

func (x *Exec) indexAddr(st *State, f *Frame, in *ssa.IndexAddr) []*State {
	c := x.c
	v := st.val(f, in.X)
	i := st.val(f, in.Index).L[0]
	if isSlice(in.X.Type()) {
		x.inBounds(st, f, in, i, v.L[2])
		if st.dead {
			return nil
		}
		l := x.memLoc(v.L[0], under(in.X.Type()).(*types.Slice).Elem(), c.Add(v.L[1], i))
		f.env[in] = x.mkPtr(l, in.Type())
		f.pc++
		return nil
	}
	at := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array)
	x.nonNil(st, f, in, v)
	x.inBounds(st, f, in, i, c.Int(at.Len()))
	if st.dead {
		return nil
	}
	l := x.ptrLoc(v)
	f.env[in] = x.mkPtr(arrElem(l, i), in.Type())
	f.pc++
	return nil
}

// arrElem is the location of element i of the array at l.
func arrElem(l Loc, i *Term) Loc {
	if strings.HasPrefix(l.root, "@") && l.path == "" {
		return Loc{root: "[]" + l.root[1:], ref: l.ref, idx: i}
	}
	if l.idx != nil {
		l.path += fmt.Sprintf("[%s]", i)
		return l
	}
	return Loc{root: l.root, ref: l.ref, path: l.path + "[]", idx: i}
}

func (x *Exec) sliceOp(st *State, f *Frame, in *ssa.Slice) []*State {
	c := x.c
	v := st.val(f, in.X)
	get := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return st.val(f, e).L[0]
	}
	pos := x.posOf(in.Pos())
	lo := get(in.Low, c.zero)
	if isString(in.X.Type()) {
		hi := get(in.High, v.L[2])
		st.prove(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, v.L[2])), "safety", f.obName("slice-in-bounds", in), pos)
		f.env[in] = Val{in.Type(), []*Term{v.L[0], c.Add(v.L[1], lo), c.Sub(hi, lo)}}
		f.pc++
		return nil
	}
	var base, off, ln, cp *Term
	if isSlice(in.X.Type()) {
		base, off, ln, cp = v.L[0], v.L[1], v.L[2], v.L[3]
	} else {
		at := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		x.nonNil(st, f, in, v)
		l := x.ptrLoc(v)
		if strings.HasPrefix(l.root, "@") && l.path == "" {
			base = l.ref
		} else {
			lc := l
			base = x.register("region"+l.regKey(), &lc)
		}
		off, ln, cp = c.zero, c.Int(at.Len()), c.Int(at.Len())
	}
	hi := get(in.High, ln)
	mx := get(in.Max, cp)
	st.prove(c.And(c.Le(c.zero, lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, cp)), "safety", f.obName("slice-in-bounds", in), pos)
	if st.dead {
		return nil
	}
	f.env[in] = Val{in.Type(), []*Term{base, c.Add(off, lo), c.Sub(hi, lo), c.Sub(mx, lo)}}
	f.pc++
	return nil
}

// ---- loops entry

func (x *Exec) goTo(st *State, to *ssa.BasicBlock) []*State {
	f := st.top()
	f.popLoops(to)
	if lp := x.L.loopAt(f.fn, to); lp != nil {
		return x.enterLoop(st, f, lp, to)
	}
	x.jump(st, f, to)
	return nil
}
