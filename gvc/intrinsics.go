package main

import (
	"go/types"
	"net/textproto"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, f *Frame, args []Val, rt *types.Tuple) []*State

var intrinsics map[string]intrinsic

func res1(st *State, f *Frame, rt *types.Tuple, ts ...*Term) []*State {
	var out []Val
	for i, t := range ts {
		out = append(out, Val{rt.At(i).Type(), []*Term{t}})
	}
	st.deliver(f, out)
	return nil
}

func nop(x *Exec, st *State, f *Frame, args []Val, rt *types.Tuple) []*State {
	st.deliver(f, st.freshResults("nop", rt))
	return nil
}

func newError(x *Exec, st *State, f *Frame, args []Val, rt *types.Tuple) []*State {
	n := x.c.Int(x.tag(types.NewPointer(x.errType())))
	st.deliver(f, []Val{{rt.At(0).Type(), []*Term{n, st.alloc()}}})
	return nil
}

func (x *Exec) errType() types.Type {
	if p := x.L.pkgNamed("errors"); p != nil {
		for _, q := range x.L.byName["errors"] {
			if o := q.Scope().Lookup("errorString"); o != nil {
				return o.Type()
			}
		}
	}
	return types.Typ[types.String]
}

func init() {
	intrinsics = map[string]intrinsic{
		"errors.New":  newError,
		"fmt.Errorf":  newError,
		"fmt.Sprintf": nop, "fmt.Sprint": nop, "fmt.Sprintln": nop, "fmt.Println": nop, "fmt.Printf": nop, "fmt.Fprintf": nop, "fmt.Fprintln": nop, "fmt.Print": nop,
		"convert.BytesToString": func(x *Exec, st *State, f *Frame, args []Val, rt *types.Tuple) []*State {
			st.deliver(f, []Val{st.stringAlias(args[0])})
			return nil
		},
		"convert.StringToBytes": func(x *Exec, st *State, f *Frame, args []Val, rt *types.Tuple) []*State {
			s := args[0]
			ref := st.alloc()
			st.setArr(ref, types.Typ[types.Uint8], x.byteLeaf(), &Arr{kind: 'f', sort: SInt, f: func(st *State, k *Term) *Term { return st.strAt(s, k) }})
			st.deliver(f, []Val{{rt.At(0).Type(), []*Term{ref, x.c.zero, s.L[2], s.L[2]}}})
			return nil
		},
		"time.Duration.Nanoseconds": func(x *Exec, st *State, f *Frame, args []Val, rt *types.Tuple) []*State {
			return res1(st, f, rt, args[0].L[0])
		},
		"bytes.Equal": func(x *Exec, st *State, f *Frame, args []Val, rt *types.Tuple) []*State {
			a, b := st.sliceSeq(args[0]), st.sliceSeq(args[1])
			v := &ev{st: st, env: &Env{}, fr: f}
			t := v.equal(nil, SVal{k: 's', s: a}, SVal{k: 's', s: b})
			return res1(st, f, rt, t)
		},
		"runtime.Gosched": nop, "runtime.KeepAlive": nop, "runtime.NumCPU": nop, "runtime.GC": nop,
		"time.Now": nop, "time.Sleep": nop, "time.Since": nop,
		"sync.Mutex.Lock": nop, "sync.Mutex.Unlock": nop, "sync.RWMutex.Lock": nop, "sync.RWMutex.Unlock": nop, "sync.RWMutex.RLock": nop, "sync.RWMutex.RUnlock": nop,
		"spinlock.SpinLock.Lock": nop, "spinlock.SpinLock.Unlock": nop,
		"sync.WaitGroup.Add": nop, "sync.WaitGroup.Done": nop, "sync.WaitGroup.Wait": nop,
		"textproto.CanonicalMIMEHeaderKey": func(x *Exec, st *State, f *Frame, args []Val, rt *types.Tuple) []*State {
			if s, ok := x.litOf(args[0]); ok {
				st.deliver(f, []Val{x.strLit(textproto.CanonicalMIMEHeaderKey(s))})
				return nil
			}
			return nop(x, st, f, args, rt)
		},
		"strings.EqualFold": equalFold, "bytes.EqualFold": equalFold,
	}
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["atomic.Load"+n] = atomicOp('l')
		intrinsics["atomic.Store"+n] = atomicOp('s')
		intrinsics["atomic.Add"+n] = atomicOp('a')
		intrinsics["atomic.Swap"+n] = atomicOp('x')
		intrinsics["atomic.CompareAndSwap"+n] = atomicOp('c')
	}
}

func atomicOp(k byte) intrinsic {
	return func(x *Exec, st *State, f *Frame, args []Val, rt *types.Tuple) []*State {
		p := args[0]
		x.nonNil(st, f, nil, p)
		l := x.ptrLoc(p)
		el := under(p.T).(*types.Pointer).Elem()
		cur := st.load(l, el)
		switch k {
		case 'l':
			st.deliver(f, []Val{cur})
		case 's':
			st.store(l, Val{el, args[1].L})
			st.deliver(f, nil)
		case 'a':
			n := st.norm(x.c.Add(cur.L[0], args[1].L[0]), el)
			st.store(l, Val{el, []*Term{n}})
			return res1(st, f, rt, n)
		case 'x':
			st.store(l, Val{el, args[1].L})
			st.deliver(f, []Val{cur})
		case 'c':
			eq := st.decide(x.c.Eq(cur.L[0], args[1].L[0]))
			n := x.c.Ite(eq, args[2].L[0], cur.L[0])
			st.store(l, Val{el, []*Term{n}})
			return res1(st, f, rt, eq)
		}
		return nil
	}
}

func lower(x *Exec, st *State, t *Term) *Term {
	c := x.c
	up := st.decide(c.And(c.Le(c.Int('A'), t), c.Le(t, c.Int('Z'))))
	return c.Ite(up, c.AddI(t, 32), t)
}

// equalFold is exact for ASCII constants (the non-ASCII folds of k and s are ignored).
func equalFold(x *Exec, st *State, f *Frame, args []Val, rt *types.Tuple) []*State {
	c := x.c
	mk := func(v Val) *Seq {
		if isString(v.T) {
			return st.strSeq(v)
		}
		return st.sliceSeq(v)
	}
	a, b := mk(args[0]), mk(args[1])
	if _, ok := a.n.Int64(); ok {
		a, b = b, a
	}
	n, ok := b.n.Int64()
	if !ok || n > 64 {
		return nop(x, st, f, args, rt)
	}
	x.assume["strings.EqualFold is ASCII case folding (the two non-ASCII characters folding to k and s are ignored)"] = true
	cs := []*Term{c.Eq(a.n, b.n)}
	for i := int64(0); i < n; i++ {
		cs = append(cs, c.Eq(lower(x, st, st.seqAt(a, c.Int(i))), lower(x, st, st.seqAt(b, c.Int(i)))))
	}
	return res1(st, f, rt, c.And(cs...))
}

var _ = strings.ToLower
var _ *ssa.Function
