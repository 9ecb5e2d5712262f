package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Unit is one verification task: a proof script or the verification of one contract.
type Unit struct {
	name    string
	spec    *Spec
	target  string // contract under verification
	demoted map[string]bool
	root    bool
	noGuard bool
	claims  *sync.Map // shared by the workers of the unit
}

func (u *Unit) isTarget(k string) bool { return false }

type UnitResult struct {
	u       *Unit
	x       *Exec
	obs     []*Oblig
	err     string
	failed  []*Oblig
	seconds float64
	vacuous bool
}

func runUnit(L *Loader, u *Unit, sc *Script, con *Contract, fn *ssa.Function) (r *UnitResult) {
	t0 := time.Now()
	x := NewExec(L, u)
	r = &UnitResult{u: u, x: x}
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(specErr); ok {
				r.err = s.msg
			} else {
				r.err = fmt.Sprint(e)
				if os.Getenv("GVC_DEBUG") != "" {
					r.err += "\n" + string(debug.Stack())
				}
			}
		}
		x.sess.Close()
		r.seconds = time.Since(t0).Seconds()
		for _, n := range x.obOrder {
			o := x.obs[n]
			r.obs = append(r.obs, o)
			if !o.OK {
				r.failed = append(r.failed, o)
			}
		}
		if x.abort != "" && r.err == "" {
			r.err = x.abort
		}
		if r.err == "" && len(r.failed) == 0 && !x.liveEnd {
			r.err = "no execution reaches the end of the unit (vacuous)"
			r.vacuous = true
		}
	}()
	st := x.newState()
	x.initPackages(st)
	st.trail = 0
	if con != nil {
		sc = con.verifyScript(x, fn)
	}
	st.frames = nil
	st.pushScript(sc, nil, nil, 0)
	x.run(st, nil)
	return
}

// initPackages evaluates the package initialisers, so that the values of package variables that are never
// assigned afterwards are known.
func (x *Exec) initPackages(st *State) {
	for _, p := range x.L.prog.AllPackages() {
		if x.L.rank(p.Pkg) > 1 || p.Pkg.Name() == "main" {
			continue
		}
		init := p.Func("init")
		if init == nil || len(init.Blocks) == 0 {
			continue
		}
		x.runInit(st, p, init)
	}
	// forget what can change later
	for g := range x.L.mutable {
		t, ok := x.globals[g]
		if !ok {
			continue
		}
		for k, h := range st.heap {
			for w := h.w; w != nil; w = w.next {
				if w.ref == t {
					st.dropRef(k, t)
					break
				}
			}
		}
	}
	st.mode = nil
	st.dead = false
}

// mergeResults joins what the workers of a unit did.
func mergeResults(ps []*UnitResult) *UnitResult {
	r := ps[0]
	if len(ps) == 1 {
		return r
	}
	by := map[string]*Oblig{}
	r.obs, r.failed = nil, nil
	vac := 0
	err := ""
	for i, p := range ps {
		if p.vacuous {
			vac++
		} else if p.err != "" {
			err = p.err
		}
		if p.seconds > r.seconds {
			r.seconds = p.seconds
		}
		for _, n := range p.x.obOrder {
			o := p.x.obs[n]
			q := by[n]
			if q == nil {
				by[n] = o
				r.obs = append(r.obs, o)
				continue
			}
			q.Count += o.Count
			q.Seconds += o.Seconds
			if q.By == "" || q.By == "simplifier" {
				q.By = o.By
			}
			if q.OK && !o.OK {
				q.OK, q.Reason, q.Model, q.Trace, q.Goal = false, o.Reason, o.Model, o.Trace, o.Goal
			}
		}
		if i == 0 {
			continue
		}
		r.x.paths += p.x.paths
		for _, m := range [][2]map[string]bool{{r.x.assume, p.x.assume}, {r.x.inlined, p.x.inlined}, {r.x.usedCon, p.x.usedCon}, {r.x.usedMod, p.x.usedMod}, {r.x.unsup, p.x.unsup}, {r.x.unknownCalls, p.x.unknownCalls}, {r.x.ran, p.x.ran}} {
			for k := range m[1] {
				m[0][k] = true
			}
		}
	}
	for _, o := range r.obs {
		if !o.OK {
			r.failed = append(r.failed, o)
		}
	}
	if err == "" && vac == len(ps) {
		err = "no execution reaches the end of the unit (vacuous)"
		r.vacuous = true
	}
	r.err = err
	return r
}

func (st *State) dropRef(k string, ref *Term) {
	h := *st.heap[k]
	var keep []*hw
	for w := h.w; w != nil; w = w.next {
		if w.ref != ref {
			keep = append(keep, w)
		}
	}
	h.w = nil
	for i := len(keep) - 1; i >= 0; i-- {
		h.w = keep[i].with(h.w)
	}
	st.heap[k] = &h
}

func (x *Exec) runInit(st *State, p *ssa.Package, init *ssa.Function) {
	defer func() { recover() }()
	st.mode = &probe{}
	st.dead = false
	d := len(st.frames)
	st.pushGo(init, nil, nil)
	saveUn, saveAs, saveInl := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for k := range x.assume {
		saveAs[k] = true
	}
	for k := range x.inlined {
		saveInl[k] = true
	}
	for k := range x.unsup {
		saveUn[k] = true
	}
	saveUC := map[string]bool{}
	for k := range x.unknownCalls {
		saveUC[k] = true
	}
	defer func() {
		x.assume, x.unsup, x.inlined, x.unknownCalls = saveAs, saveUn, saveInl, saveUC
		st.frames = st.frames[:d]
		st.dead = false
		st.mode = nil
	}()
	f := st.top()
	// enter past the guard: block 1 holds the initialisers
	for _, b := range init.Blocks {
		if b.Comment == "init.start" {
			f.block = b
		}
	}
	for i := 0; i < 200000 && len(st.frames) > d && !st.dead; i++ {
		f := st.top()
		if f.fn != nil && f.pc < len(f.block.Instrs) {
			in := f.block.Instrs[f.pc]
			if c, ok := in.(*ssa.Call); ok {
				if cf, ok := c.Call.Value.(*ssa.Function); ok {
					if cf.Name() == "init" && f.fn == init || strings.HasPrefix(cf.Name(), "init#") {
						f.pc++
						continue
					}
				}
			}
			if s, ok := in.(*ssa.Store); ok && f.fn == init {
				if g, ok := s.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
					f.pc++
					continue
				}
			}
		}
		if more := x.step(st); len(more) > 0 {
			return
		}
	}
}

type Report struct {
	Prop    string
	Units   []*UnitResult
	Failed  []*UnitResult
	Demoted []string
}

// verify runs the proofs of one property. A contract that is only an intermediate step and that fails is demoted: its
// body is used at the call sites instead, and the property is decided again.
func verify(L *Loader, sp *Spec, only string, jobs int) *Report {
	rep := &Report{}
	demoted := map[string]bool{}
	for round := 0; round < 4; round++ {
		var units []func() *UnitResult
		type job struct {
			name    string
			run     func() *UnitResult
			workers int
		}
		var js []job
		for _, s := range sp.proofs {
			s := s
			if only != "" && !strings.Contains(s.name, only) {
				continue
			}
			u := &Unit{name: s.name, spec: sp, demoted: demoted, root: true}
			if s.workers > 1 {
				u.claims = &sync.Map{}
			}
			js = append(js, job{s.name, func() *UnitResult { return runUnit(L, u, s, nil, nil) }, s.workers})
		}
		for _, k := range sp.corder {
			c := sp.contracts[k]
			if c.trusted || demoted[k] {
				continue
			}
			if only != "" && !strings.Contains(k, only) {
				continue
			}
			fn := L.fnNamed(k)
			u := &Unit{name: "contract " + k, spec: sp, target: k, demoted: demoted, root: !c.inherit && false, noGuard: true}
			if fn == nil {
				js = append(js, job{k, func() *UnitResult {
					return &UnitResult{u: u, x: &Exec{}, err: "missing target " + k}
				}, 1})
				continue
			}
			js = append(js, job{k, func() *UnitResult { return runUnit(L, u, nil, c, fn) }, 1})
		}
		_ = units
		res := make([]*UnitResult, len(js))
		sem := make(chan bool, jobs)
		var wg sync.WaitGroup
		for i, j := range js {
			n := j.workers
			if n < 1 {
				n = 1
			}
			parts := make([]*UnitResult, n)
			var pw sync.WaitGroup
			for k := 0; k < n; k++ {
				wg.Add(1)
				pw.Add(1)
				go func(k int, j job) {
					defer wg.Done()
					defer pw.Done()
					sem <- true
					defer func() { <-sem }()
					parts[k] = j.run()
				}(k, j)
			}
			wg.Add(1)
			go func(i int, j job) {
				defer wg.Done()
				pw.Wait()
				res[i] = mergeResults(parts)
				if os.Getenv("GVC_V") != "" {
					r := res[i]
					s := "ok"
					if r.err != "" {
						s = "ERROR " + r.err
					} else if len(r.failed) > 0 {
						s = fmt.Sprintf("FAILED %d", len(r.failed))
					}
					fmt.Fprintf(os.Stderr, "[%d] %-50s %6.1fs obs %d paths %d %s\n", round, j.name, r.seconds, len(r.obs), r.x.paths, s)
					for _, o := range r.failed {
						fmt.Fprintf(os.Stderr, "      - %s @%s: %s\n", o.Name, o.Pos, o.Reason)
					}
				}
			}(i, j)
		}
		wg.Wait()
		rep.Units = res
		rep.Failed = nil
		again := false
		for _, r := range res {
			if r.err == "" && len(r.failed) == 0 {
				continue
			}
			if r.u.target != "" && !demoted[r.u.target] {
				demoted[r.u.target] = true
				rep.Demoted = append(rep.Demoted, r.u.target)
				again = true
			} else {
				rep.Failed = append(rep.Failed, r)
			}
		}
		if !again {
			break
		}
		// a demoted contract that nobody relied on through a root proof fails by itself
		if only != "" {
			for _, r := range res {
				if r.err != "" || len(r.failed) > 0 {
					rep.Failed = append(rep.Failed, r)
				}
			}
			break
		}
	}
	return rep
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gvc verify SPEC.gvc [filter] | gvc check PROP TIER | gvc loops FUNC | gvc ssa FUNC")
		os.Exit(2)
	}
	repo := os.Getenv("GVC_REPO")
	if repo == "" {
		repo = "/repo"
	}
	d, err := os.MkdirTemp("", "gvc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	workDir = d
	code := 0
	func() {
		if os.Getenv("GVC_KEEP") == "" {
			defer os.RemoveAll(d)
		}
		code = command(repo)
	}()
	os.Exit(code)
}

func command(repo string) int {
	switch os.Args[1] {
	case "verify":
		L, err := Load(repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, "load:", err)
			return 2
		}
		sp := NewSpec()
		f, _ := filepath.Abs(os.Args[2])
		sp.Load(f)
		only := ""
		if len(os.Args) > 3 {
			only = os.Args[3]
		}
		os.Setenv("GVC_V", "1")
		rep := verify(L, sp, only, 8)
		for _, r := range rep.Units {
			if r.x == nil {
				continue
			}
			for _, o := range r.failed {
				fmt.Printf("FAIL %s :: %s\n   at %s: %s\n   goal %s\n   trace %s\n   model %s\n", r.u.name, o.Name, o.Pos, o.Reason, cut(o.Goal, 600), strings.Join(o.Trace, " | "), cut(o.Model, 500))
			}
			if r.err != "" {
				fmt.Printf("ERROR %s :: %s\n", r.u.name, r.err)
			}
		}
		if os.Getenv("GVC_ASSUME") != "" {
			as := map[string]bool{}
			for _, r := range rep.Units {
				for k := range r.x.assume {
					as[k] = true
				}
			}
			var ks []string
			for k := range as {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Println("assumed:", k)
			}
		}
		fmt.Println("failed units:", len(rep.Failed), "demoted:", rep.Demoted)
		if len(rep.Failed) > 0 {
			return 1
		}
	case "ssa":
		L, err := Load(repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, "load:", err)
			return 2
		}
		for _, k := range os.Args[2:] {
			if fn := L.fnNamed(k); fn != nil {
				fn.WriteTo(os.Stdout)
				continue
			}
			var ks []string
			for n := range L.fns {
				if strings.Contains(n, k) {
					ks = append(ks, n)
				}
			}
			sort.Strings(ks)
			fmt.Println(strings.Join(ks, "\n"))
		}
	case "replay":
		seed := 1
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		root := os.Getenv("GVC_ROOT")
		if root == "" {
			root = "/verif"
		}
		bad, out := replay(root, repo, os.Args[2], os.Args[3], seed, 300*time.Second)
		fmt.Println(out)
		if bad {
			return 1
		}
	case "check":
		return check(repo, os.Args[2], os.Args[3])
	}
	return 0
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
