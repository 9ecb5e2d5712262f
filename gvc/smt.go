package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type SolverStats struct {
	mu      sync.Mutex
	Queries map[string]int // by back end
	Proved  map[string]int
	Time    map[string]time.Duration
}

var stats = &SolverStats{Queries: map[string]int{}, Proved: map[string]int{}, Time: map[string]time.Duration{}}

func (s *SolverStats) add(be string, d time.Duration) {
	s.mu.Lock()
	s.Queries[be]++
	s.Time[be] += d
	s.mu.Unlock()
}

type level struct {
	term   *Term
	bounds []int
}

type Session struct {
	c        *Ctx
	cmd      *exec.Cmd
	in       *bufio.Writer
	inC      io.Closer
	out      *bufio.Reader
	defd     map[int]bool
	ufd      map[string]bool
	levels   []level
	bounded  map[int]bool
	log      *os.File
	dead     bool
	restarts int
}

const z3bin = "/usr/local/bin/z3-new"

func NewSession(c *Ctx) *Session {
	s := &Session{c: c}
	s.start()
	return s
}

func (s *Session) start() {
	s.cmd = exec.Command(z3bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.inC = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defd = map[int]bool{}
	s.ufd = map[string]bool{}
	s.levels = nil
	s.bounded = map[int]bool{}
	s.dead = false
	s.send("(set-option :global-declarations true)\n(set-option :smt.mbqi false)\n")
}

func (s *Session) Close() {
	if s == nil || s.cmd == nil {
		return
	}
	s.inC.Close()
	if s.cmd.Process != nil {
		s.cmd.Process.Kill()
	}
	s.cmd.Wait()
}

func (s *Session) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	s.in.WriteString(x)
}

// printer gives the text of terms, defining shared ground subterms first.
type printer struct {
	defd map[int]bool
	ufd  map[string]bool
	c    *Ctx
	emit func(string)
}

func (p *printer) declUF(name string) {
	if p.ufd[name] {
		return
	}
	p.ufd[name] = true
	u := p.c.ufs[name]
	so := "Int"
	if u.sort == SBool {
		so = "Bool"
	}
	p.emit("(declare-fun " + quoteName(name) + " (" + strings.TrimSpace(strings.Repeat("Int ", u.arity)) + ") " + so + ")\n")
}

func (p *printer) text(t *Term) string {
	switch t.op {
	case OConst, OTrue, OFalse:
		return t.smt(nil)
	case OVar:
		if !t.free && !p.defd[t.id] {
			p.defd[t.id] = true
			so := "Int"
			if t.sort == SBool {
				so = "Bool"
			}
			p.emit("(declare-fun " + quoteName(t.name) + " () " + so + ")\n")
		}
		return quoteName(t.name)
	}
	if t.op == OApp {
		p.declUF(t.name)
	}
	if t.free || t.op == OForall {
		return t.smt(p.text)
	}
	name := fmt.Sprintf("t%d", t.id)
	if !p.defd[t.id] {
		body := t.smt(p.text)
		if t.size <= 3 {
			return body
		}
		p.defd[t.id] = true
		so := "Int"
		if t.sort == SBool {
			so = "Bool"
		}
		p.emit("(define-fun " + name + " () " + so + " " + body + ")\n")
	}
	return name
}

// boundsOf collects ground bounded leaves under t.
func boundsOf(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if (t.op == OVar || t.op == OApp) && !t.free && t.sort == SInt && (t.lo != nil || t.hi != nil) {
		f(t)
	}
	for _, a := range t.args {
		boundsOf(a, seen, f)
	}
}

func boundText(p *printer, t *Term) string {
	x := p.text(t)
	var ps []string
	if t.lo != nil {
		ps = append(ps, "(<= "+bigSMT(t.lo)+" "+x+")")
	}
	if t.hi != nil {
		ps = append(ps, "(<= "+x+" "+bigSMT(t.hi)+")")
	}
	if t.op == OApp && t.name == "xor8" {
		// instances of the laws of XOR
		a, b := p.text(t.args[0]), p.text(t.args[1])
		ps = append(ps, "(= "+x+" (xor8 "+b+" "+a+"))", "(= (xor8 "+x+" "+b+") "+a+")", "(= (xor8 "+x+" "+a+") "+b+")")
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return "(and " + strings.Join(ps, " ") + ")"
}

func (s *Session) pr() *printer {
	return &printer{defd: s.defd, ufd: s.ufd, c: s.c, emit: s.send}
}

func (s *Session) push(t *Term) {
	p := s.pr()
	txt := p.text(t)
	s.send("(push 1)\n")
	lv := level{term: t}
	boundsOf(t, map[int]bool{}, func(x *Term) {
		if !s.bounded[x.id] {
			s.bounded[x.id] = true
			lv.bounds = append(lv.bounds, x.id)
			b := boundText(p, x)
			s.send("(assert " + b + ")\n")
		}
	})
	s.send("(assert " + txt + ")\n")
	s.levels = append(s.levels, lv)
}

func (s *Session) pop(n int) {
	if n == 0 {
		return
	}
	s.send(fmt.Sprintf("(pop %d)\n", n))
	for i := 0; i < n; i++ {
		lv := s.levels[len(s.levels)-1]
		for _, b := range lv.bounds {
			delete(s.bounded, b)
		}
		s.levels = s.levels[:len(s.levels)-1]
	}
}

func (s *Session) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.levels) && s.levels[k].term == pc[k] {
		k++
	}
	s.pop(len(s.levels) - k)
	for _, t := range pc[k:] {
		s.push(t)
	}
}

func (s *Session) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "unknown"
	}
	return strings.TrimSpace(l)
}

// Check decides satisfiability of pc and extra.
func (s *Session) Check(pc []*Term, extra []*Term, ms int) Res {
	if s.dead {
		s.Close()
		s.restarts++
		s.start()
	}
	t0 := time.Now()
	s.sync(pc)
	for _, e := range extra {
		s.push(e)
	}
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(check-sat)\n", ms))
	s.in.Flush()
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(time.Duration(ms)*time.Millisecond*3 + 3*time.Second):
			s.cmd.Process.Kill()
		}
	}()
	var r Res
	for {
		l := s.readLine()
		if strings.HasPrefix(l, "(error") {
			if strings.Contains(l, "timeout") || strings.Contains(l, "canceled") {
				continue
			}
			close(done)
			panic("solver: " + l)
		}
		switch l {
		case "sat":
			r = Sat
		case "unsat":
			r = Unsat
		default:
			r = Unknown
		}
		break
	}
	close(done)
	if s.dead {
		s.levels = nil
		s.bounded = map[int]bool{}
	}
	stats.add("z3-5.3.2(session)", time.Since(t0))
	return r
}

// Values asks for values after a Sat answer (session must be untouched since).
func (s *Session) Values(ts []*Term) map[string]string {
	r := map[string]string{}
	if len(ts) == 0 || s.dead {
		return r
	}
	var names []string
	for _, t := range ts {
		if !s.defd[t.id] {
			continue
		}
		names = append(names, quoteName(t.name))
	}
	for _, n := range names {
		s.send("(get-value (" + n + "))\n")
		s.in.Flush()
		l := s.readLine()
		if s.dead || strings.HasPrefix(l, "(error") {
			return r
		}
		l = strings.TrimSuffix(strings.TrimPrefix(l, "(("), "))")
		r[n] = strings.TrimSpace(strings.TrimPrefix(l, n))
	}
	return r
}

var qcount int64
var workDir string

// Portfolio writes one query to a file and runs the installed solvers on it in parallel.
func Portfolio(c *Ctx, pc []*Term, extra []*Term, secs int) (Res, string) {
	var b strings.Builder
	p := &printer{defd: map[int]bool{}, ufd: map[string]bool{}, c: c, emit: func(x string) { b.WriteString(x) }}
	b.WriteString("(set-logic ALL)\n")
	all := append(append([]*Term{}, pc...), extra...)
	seen := map[int]bool{}
	var asserts []string
	for _, t := range all {
		boundsOf(t, seen, func(x *Term) { asserts = append(asserts, boundText(p, x)) })
		asserts = append(asserts, p.text(t))
	}
	for _, a := range asserts {
		b.WriteString("(assert " + a + ")\n")
	}
	b.WriteString("(check-sat)\n")
	n := atomic.AddInt64(&qcount, 1)
	f := filepath.Join(workDir, fmt.Sprintf("q%d.smt2", n))
	os.WriteFile(f, []byte(b.String()), 0644)
	defer func() {
		if os.Getenv("GVC_KEEP") == "" {
			os.Remove(f)
		}
	}()
	type ans struct {
		r  Res
		be string
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+2)*time.Second)
	defer cancel()
	cmds := map[string][]string{
		"z3-5.3.2":   {z3bin, fmt.Sprintf("-T:%d", secs), f},
		"cvc5-1.1.2": {"/usr/bin/cvc5", fmt.Sprintf("--tlimit=%d", secs*1000), f},
		"z3-4.8.12":  {"/usr/bin/z3", fmt.Sprintf("-T:%d", secs), f},
	}
	if _, err := os.Stat("/usr/bin/cvc5"); err != nil {
		cmds["cvc5-1.1.2"][0] = "cvc5"
	}
	ch := make(chan ans, len(cmds))
	for be, args := range cmds {
		go func(be string, args []string) {
			t0 := time.Now()
			out, _ := exec.CommandContext(ctx, args[0], args[1:]...).Output()
			stats.add(be, time.Since(t0))
			r := Unknown
			for _, l := range strings.Split(string(out), "\n") {
				if l == "sat" {
					r = Sat
				} else if l == "unsat" {
					r = Unsat
				}
			}
			ch <- ans{r, be}
		}(be, args)
	}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.be
		}
	}
	return Unknown, ""
}
