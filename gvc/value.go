package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values are flat lists of terms shaped by their Go type.

type Val struct {
	T types.Type
	L []*Term
}

type Leaf struct {
	Path   string
	Sort   Sort
	Lo, Hi *big.Int
	Kind   byte // 'i' int, 'b' bool, 'p' pointer-like, 'l' len/cap/off, 't' iface tag, 'd' iface data, 's' string base, 'f' float
	T      types.Type
}

var maxLen = pow2(50)

func typeKey(t types.Type) string {
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "any")
	// the predeclared aliases print under both names
	if strings.Contains(s, "uint8") {
		s = reUint8.ReplaceAllString(s, "byte")
	}
	if strings.Contains(s, "rune") {
		s = reRune.ReplaceAllString(s, "int32")
	}
	return s
}

var (
	reUint8 = regexp.MustCompile(`\buint8\b`)
	reRune  = regexp.MustCompile(`\brune\b`)
)

func under(t types.Type) types.Type { return t.Underlying() }

func intBounds(b *types.Basic) (*big.Int, *big.Int) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big1)
	case types.Int32, types.UntypedRune:
		return new(big.Int).Neg(pow2(31)), new(big.Int).Sub(pow2(31), big1)
	case types.Int16:
		return big.NewInt(-1 << 15), big.NewInt(1<<15 - 1)
	case types.Int8:
		return big.NewInt(-128), big.NewInt(127)
	case types.Uint, types.Uint64, types.Uintptr:
		return big0, new(big.Int).Sub(pow2(64), big1)
	case types.Uint32:
		return big0, new(big.Int).Sub(pow2(32), big1)
	case types.Uint16:
		return big0, big.NewInt(65535)
	case types.Uint8:
		return big0, big255
	}
	return nil, nil
}

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isSlice(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }
func isMap(t types.Type) bool   { _, ok := under(t).(*types.Map); return ok }
func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }
func isPtr(t types.Type) bool   { _, ok := under(t).(*types.Pointer); return ok }
func isStruct(t types.Type) bool {
	_, ok := under(t).(*types.Struct)
	return ok
}

func bitsOf(t types.Type) int {
	b := under(t).(*types.Basic)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

var maxInitRef = new(big.Int).Sub(pow2(59), big1)

// leaves flattens a type.
func (x *Exec) leaves(t types.Type) []Leaf {
	if r, ok := x.leafMemo[t]; ok {
		return r
	}
	r := x.leaves0(t)
	x.leafMemo[t] = r
	return r
}

func (x *Exec) leaves0(t types.Type) []Leaf {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []Leaf{{"", SBool, nil, nil, 'b', t}}
		}
		if u.Info()&types.IsString != 0 {
			return []Leaf{{"#sb", SInt, nil, nil, 's', t}, {"#so", SInt, big0, maxLen, 'l', t}, {"#sl", SInt, big0, maxLen, 'l', t}}
		}
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intBounds(u)
			return []Leaf{{"", SInt, lo, hi, 'i', t}}
		}
		if u.Kind() == types.UnsafePointer {
			return []Leaf{{"", SInt, nil, nil, 'p', t}}
		}
		return []Leaf{{"", SInt, nil, nil, 'f', t}}
	case *types.Slice:
		return []Leaf{{"#p", SInt, nil, nil, 'p', t}, {"#o", SInt, big0, maxLen, 'l', t}, {"#l", SInt, big0, maxLen, 'l', t}, {"#c", SInt, big0, maxLen, 'l', t}}
	case *types.Interface:
		return []Leaf{{"#t", SInt, big0, nil, 't', t}, {"#d", SInt, nil, nil, 'd', t}}
	case *types.Struct:
		var r []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range x.leaves(f.Type()) {
				l.Path = "." + f.Name() + l.Path
				r = append(r, l)
			}
		}
		return r
	case *types.Array:
		var r []Leaf
		el := x.leaves(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range el {
				l.Path = fmt.Sprintf("[%d]%s", i, l.Path)
				r = append(r, l)
			}
		}
		return r
	case *types.Tuple:
		var r []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range x.leaves(u.At(i).Type()) {
				l.Path = fmt.Sprintf("$%d%s", i, l.Path)
				r = append(r, l)
			}
		}
		return r
	}
	return []Leaf{{"", SInt, nil, nil, 'p', t}}
}

// ---- memory

// Arr is an integer-indexed array value.
type Arr struct {
	kind   byte // 'u' uf, 'z' zero, 's' store, 'c' copy/lambda over a range, 'f' function, 'i' ite
	uf     *UF
	args   []*Term
	sort   Sort
	parent *Arr
	idx    *Term
	val    *Term
	lo, n  *Term
	f      func(st *State, k *Term) *Term
	cond   *Term
	a, b   *Arr
	depth  int
}

func (x *Exec) zeroOf(s Sort) *Term {
	if s == SBool {
		return x.c.F
	}
	return x.c.zero
}

func (st *State) readArr(a *Arr, i *Term) *Term {
	x := st.x
	c := x.c
	switch a.kind {
	case 'u':
		return c.App(a.uf, append(append([]*Term{}, a.args...), i)...)
	case 'z':
		return x.zeroOf(a.sort)
	case 's':
		cd := st.decide(c.Eq(i, a.idx))
		if cd == c.T {
			return a.val
		}
		if cd == c.F {
			return st.readArr(a.parent, i)
		}
		return c.Ite(cd, a.val, st.readArr(a.parent, i))
	case 'c':
		cd := st.decide(c.And(c.Le(a.lo, i), c.Lt(i, c.Add(a.lo, a.n))))
		if cd == c.T {
			return a.f(st, i)
		}
		if cd == c.F {
			return st.readArr(a.parent, i)
		}
		return c.Ite(cd, a.f(st, i), st.readArr(a.parent, i))
	case 'f':
		return a.f(st, i)
	case 'e':
		// a second description of the same elements: instantiated at every index read
		r := st.readArr(a.parent, i)
		if !i.free && !r.free {
			in := st.decide(c.And(c.Le(a.lo, i), c.Lt(i, c.Add(a.lo, a.n))))
			if in != c.F {
				if q := a.f(st, i); q != r && !q.free {
					st.fact(c.Imp(in, c.Eq(r, q)))
				}
			}
		}
		return r
	case 'i':
		return c.Ite(a.cond, st.readArr(a.a, i), st.readArr(a.b, i))
	}
	panic("arr kind")
}

type hw struct {
	ref    *Term // nil: every object allocated in (hi, lo], i.e. references lo..hi, is forgotten
	val    *Term
	arr    *Arr
	next   *hw
	lo, hi int64
	uf     *UF
}

// covers says whether a layer applies to a reference.
func (st *State) covers(w *hw, ref *Term) *Term {
	c := st.x.c
	if w.ref != nil {
		return st.sameRef(ref, w.ref)
	}
	if n, ok := ref.Int64(); ok {
		return c.Bool(w.lo <= n && n <= w.hi)
	}
	if lo, _ := st.bounds(ref); lo != nil && lo.Cmp(big.NewInt(w.hi)) > 0 {
		return c.F
	}
	return st.decide(c.And(c.Le(c.Int(w.lo), ref), c.Le(ref, c.Int(w.hi))))
}

// sameRef compares two references; a value known to be older than an allocation cannot be it.
func (st *State) sameRef(a, b *Term) *Term {
	if a == b {
		return st.x.c.T
	}
	for i := 0; i < 2; i++ {
		if n, ok := a.Int64(); ok && n < 0 && n > -(1<<50) {
			if k, ok := st.born(b); ok && int64(-k) > n {
				return st.x.c.F
			}
		}
		a, b = b, a
	}
	return st.decide(st.x.c.Eq(a, b))
}

func (st *State) born(t *Term) (int, bool) {
	for f := st.facts; f != nil; f = f.parent {
		if n, ok := f.born[t.id]; ok {
			return n, true
		}
	}
	return 0, false
}

// older records that a reference denotes something that exists already.
func (st *State) older(t *Term) {
	if t.op == OConst || t.free {
		return
	}
	if lo, _ := st.bounds(t); lo != nil && lo.Sign() >= 0 {
		return
	}
	if _, ok := st.born(t); ok {
		return
	}
	c := st.x.c
	st.facts.born[t.id] = st.na
	st.fact(c.Or(c.Le(c.Int(int64(-st.na)), t), c.Le(t, c.Int(-(1<<50)))))
}

func (w *hw) with(next *hw) *hw { n := *w; n.next = next; return &n }

// HM is one heap component: a map from object references to a leaf (or to an array of leaves).
type HM struct {
	key    string
	isArr  bool
	sort   Sort
	lo, hi *big.Int
	uf     *UF
	cut    int // objects allocated after this point are zero in the base
	w      *hw
	init   bool
}

type Loc struct {
	root string
	ref  *Term
	path string
	idx  *Term
	rein types.Type // reinterpretation of a byte region (unsafe)
}

type StrObj struct {
	lit   string
	isLit bool
	arr   *Arr // snapshot
	mem   *Loc // alias of live memory: string over []byte region (ref,off)
}

// Registry of concrete ids.
type FnVal struct {
	fn    *ssa.Function
	binds []Val
}

func (x *Exec) heapMap(st *State, key string, isArr bool, l Leaf) *HM {
	if h, ok := st.heap[key]; ok {
		return h
	}
	h := x.initHM(key, isArr, l)
	st.heap[key] = h
	return h
}

func (x *Exec) initHM(key string, isArr bool, l Leaf) *HM {
	if h, ok := x.initHeap[key]; ok {
		return h
	}
	h := &HM{key: key, isArr: isArr, sort: l.Sort, lo: l.Lo, hi: l.Hi, init: true}
	ar := 1
	if isArr {
		ar = 2
	}
	lo := l.Lo
	if l.Kind == 'p' || l.Kind == 'd' || l.Kind == 's' {
		lo = big0 // nothing reachable initially was allocated by this execution
	}
	hi := l.Hi
	if l.Kind == 'p' {
		hi = maxInitRef
	}
	h.uf = x.c.DeclUF("H0."+key, ar, l.Sort, lo, hi)
	x.initHeap[key] = h
	x.keyLeaf[key] = l
	return h
}

func (st *State) hmBase(h *HM, ref *Term) (zero bool) {
	if ref.op == OConst && ref.val.Sign() < 0 {
		k, _ := ref.Int64()
		if int(-k) > h.cut {
			return true
		}
	}
	return false
}

func (st *State) readHM(h *HM, ref *Term) *Term {
	c := st.x.c
	type fr struct{ cd, v *Term }
	var stack []fr
	var r *Term
	for w := h.w; ; w = w.next {
		if w == nil {
			if st.hmBase(h, ref) {
				r = st.x.zeroOf(h.sort)
			} else {
				r = c.App(h.uf, ref)
			}
			break
		}
		cd := st.covers(w, ref)
		if cd == c.F {
			continue
		}
		val := w.val
		if w.ref == nil {
			val = c.App(w.uf, ref)
		}
		if cd == c.T {
			r = val
			break
		}
		stack = append(stack, fr{cd, val})
	}
	for i := len(stack) - 1; i >= 0; i-- {
		r = c.Ite(stack[i].cd, stack[i].v, r)
	}
	return r
}

func (st *State) readHMArr(h *HM, ref *Term) *Arr {
	c := st.x.c
	type fr struct {
		cd *Term
		v  *Arr
	}
	var stack []fr
	var r *Arr
	for w := h.w; ; w = w.next {
		if w == nil {
			if st.hmBase(h, ref) {
				r = &Arr{kind: 'z', sort: h.sort}
			} else {
				r = &Arr{kind: 'u', uf: h.uf, args: []*Term{ref}, sort: h.sort}
			}
			break
		}
		cd := st.covers(w, ref)
		if cd == c.F {
			continue
		}
		arr := w.arr
		if w.ref == nil {
			arr = &Arr{kind: 'u', uf: w.uf, args: []*Term{ref}, sort: h.sort}
		}
		if cd == c.T {
			r = arr
			break
		}
		stack = append(stack, fr{cd, arr})
	}
	for i := len(stack) - 1; i >= 0; i-- {
		r = &Arr{kind: 'i', cond: stack[i].cd, a: stack[i].v, b: r, sort: h.sort}
	}
	return r
}

func (st *State) writeHM(h *HM, ref *Term, val *Term, arr *Arr) {
	n := *h
	// drop an older write to the very same reference
	var keep []*hw
	for w := h.w; w != nil; w = w.next {
		if w.ref == ref {
			continue
		}
		keep = append(keep, w)
	}
	n.w = nil
	for i := len(keep) - 1; i >= 0; i-- {
		n.w = keep[i].with(n.w)
	}
	n.w = &hw{ref: ref, val: val, arr: arr, next: n.w}
	n.init = false
	st.heap[h.key] = &n
}

// writeFresh forgets what the objects allocated since a point hold.
func (st *State) writeFresh(k string, since int) {
	x := st.x
	h := st.heap[k]
	if h == nil {
		h = x.initHeap[k]
	}
	if st.na <= since {
		return
	}
	lf := x.keyLeaf[k]
	n := *h
	ar := 1
	if h.isArr {
		ar = 2
	}
	n.w = &hw{lo: int64(-st.na), hi: int64(-since - 1), next: h.w, uf: x.c.DeclUF(x.c.FreshName("F."+k), ar, lf.Sort, lf.Lo, lf.Hi)}
	n.init = false
	st.heap[k] = &n
}

// fullKey of one leaf at a location.
func (l Loc) key(leaf string) (string, bool) {
	return l.root + "|" + l.path + leaf, l.idx != nil
}

func (st *State) loadLeaf(l Loc, lf Leaf) *Term {
	k, isArr := l.key(lf.Path)
	h := st.x.heapMap(st, k, isArr, lf)
	if isArr {
		return st.readArr(st.readHMArr(h, l.ref), l.idx)
	}
	return st.readHM(h, l.ref)
}

func (st *State) storeLeaf(l Loc, lf Leaf, v *Term) {
	k, isArr := l.key(lf.Path)
	h := st.x.heapMap(st, k, isArr, lf)
	st.noteWrite(k, l.ref)
	if isArr {
		a := st.readHMArr(h, l.ref)
		st.writeHM(h, l.ref, nil, &Arr{kind: 's', parent: a, idx: l.idx, val: v, sort: lf.Sort})
		return
	}
	st.writeHM(h, l.ref, v, nil)
}

// hasArray says whether a leaf path has an array index in it, and splits it.
func splitArr(p string) (pre string, idx string, post string, ok bool) {
	i := strings.IndexByte(p, '[')
	if i < 0 {
		return "", "", "", false
	}
	j := i + strings.IndexByte(p[i:], ']')
	return p[:i], p[i+1 : j], p[j+1:], true
}

func (st *State) leafLoc(l Loc, lf Leaf) (Loc, Leaf) {
	if pre, idx, post, ok := splitArr(lf.Path); ok {
		n, _ := new(big.Int).SetString(idx, 10)
		if l.idx != nil {
			// array inside an element: keep the index in the path (constant indices only)
			return l, lf
		}
		nl := Loc{root: l.root, ref: l.ref, path: l.path + pre + "[]", idx: st.x.c.Big(n)}
		if strings.HasPrefix(l.root, "@") && l.path == "" && pre == "" {
			nl = Loc{root: "[]" + l.root[1:], ref: l.ref, path: "", idx: st.x.c.Big(n)}
		}
		nf := lf
		nf.Path = post
		return nl, nf
	}
	return l, lf
}

func (st *State) load(l Loc, t types.Type) Val {
	if l.rein != nil {
		return st.loadWord(l, t)
	}
	ls := st.x.leaves(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, lf := range ls {
		ll, lf2 := st.leafLoc(l, lf)
		v.L[i] = st.loadLeaf(ll, lf2)
	}
	st.typeFacts(v)
	return v
}

func (st *State) store(l Loc, v Val) {
	if l.rein != nil {
		st.storeWord(l, v)
		return
	}
	ls := st.x.leaves(v.T)
	if len(ls) != len(v.L) {
		panic(fmt.Sprintf("store shape %s: %d vs %d", v.T, len(ls), len(v.L)))
	}
	for i, lf := range ls {
		ll, lf2 := st.leafLoc(l, lf)
		st.storeLeaf(ll, lf2, v.L[i])
	}
}

// typeFacts records facts every value of the type satisfies.
func (st *State) typeFacts(v Val) {
	c := st.x.c
	ls := st.x.leaves(v.T)
	for i, lf := range ls {
		if lf.Kind == 'p' || lf.Kind == 'd' || lf.Kind == 's' {
			st.older(v.L[i])
		}
		if lf.Kind == 'p' && isSlice(lf.T) && strings.HasSuffix(lf.Path, "#p") {
			p, o, l, cp := v.L[i], v.L[i+1], v.L[i+2], v.L[i+3]
			_ = o
			if cp.op != OConst || l.op != OConst {
				st.fact(c.Le(l, cp))
			}
			if p.op != OConst {
				st.fact(c.Or(c.Not(c.Eq(p, c.zero)), c.Eq(cp, c.zero)))
			}
		}
	}
}

// decide simplifies a boolean under the state's facts.
func (st *State) decide(t *Term) *Term {
	if t.op == OTrue || t.op == OFalse {
		return t
	}
	if t.free {
		return t
	}
	return st.simpBool(t)
}

func (st *State) simpBool(t *Term) *Term {
	c := st.x.c
	if t.op == OTrue || t.op == OFalse {
		return t
	}
	if st.known(t) {
		return c.T
	}
	if st.known(c.Not(t)) {
		return c.F
	}
	switch t.op {
	case OLe:
		lo, hi := st.boundsLin(t.args[0])
		if hi != nil && hi.Sign() <= 0 {
			return c.T
		}
		if lo != nil && lo.Sign() > 0 {
			return c.F
		}
		if m := st.linMax(t.args[0]); m == 1 {
			return c.T
		} else if m == -1 {
			return c.F
		}
	case OEq:
		if len(t.args) == 1 {
			lo, hi := st.boundsLin(t.args[0])
			if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
				return c.F
			}
			if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
				return c.T
			}
			// both t<=-1 or t>=1 known?
			if st.linMax(c.AddI(t.args[0], 1)) == 1 || st.linMax(c.AddI(c.Neg(t.args[0]), 1)) == 1 {
				return c.F
			}
		}
	case ONot:
		return c.Not(st.simpBool(t.args[0]))
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = st.simpBool(a)
		}
		if t.op == OAnd {
			return c.And(as...)
		}
		return c.Or(as...)
	}
	return t
}
