package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The specification language: declarations, contracts, models and proof scripts.

type Tok struct {
	k    byte // 'i' ident, 'n' number, 's' string, 'c' char, 'o' operator, 'l' newline, 'e' eof
	s    string
	line int
}

func lex(src, file string) []Tok {
	var out []Tok
	line := 1
	depth := 0
	i := 0
	emit := func(k byte, s string) { out = append(out, Tok{k, s, line}) }
	isId := func(b byte) bool {
		return b == '_' || b == '$' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
	}
	ops := []string{"<==>", "==>", "...", "==", "!=", "<=", ">=", "<<", ">>", "&&", "||", ":=", ".."}
	for i < len(src) {
		ch := src[i]
		switch {
		case ch == '\n':
			if depth == 0 && len(out) > 0 {
				l := out[len(out)-1]
				if l.k == 'i' || l.k == 'n' || l.k == 's' || l.k == 'c' || l.s == ")" || l.s == "]" || l.s == "}" || l.s == "*" {
					emit('l', "\n")
				}
			}
			line++
			i++
		case ch == ' ' || ch == '\t' || ch == '\r':
			i++
		case ch == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case ch == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string", file, line))
			}
			emit('s', s)
			i = j + 1
		case ch == '\'':
			j := i + 1
			for src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad char", file, line))
			}
			emit('n', fmt.Sprint(int(r)))
			i = j + 1
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			emit('n', strings.ReplaceAll(src[i:j], "_", ""))
			i = j
		case isId(ch):
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			emit('i', src[i:j])
			i = j
		default:
			hit := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					emit('o', o)
					i += len(o)
					hit = true
					break
				}
			}
			if !hit {
				if ch == '(' || ch == '[' {
					depth++
				}
				if ch == ')' || ch == ']' {
					depth--
				}
				emit('o', string(ch))
				i++
			}
		}
	}
	emit('l', "\n")
	emit('e', "")
	return out
}

type Expr struct {
	op   string
	name string
	n    *big.Int
	args []*Expr
	typ  *TypeX
	pos  string
}

type TypeX struct {
	k    string // "*", "[]", "arr", "map", "name"
	name string
	n    int64
	a, b *TypeX
	ps   []*TypeX
}

type SOp struct {
	k     string
	name  string
	names []string
	e     *Expr
	es    []*Expr
	lhs   *Expr
	typ   *TypeX
	gt    types.Type
	to    int
	tos   []int
	pos   string
}

type Script struct {
	name    string
	params  []string
	results []string
	ops     []SOp
	pos     string
	con     *Contract
	use     bool
	fn      *ssa.Function
	workers int
}

// Clause of a contract.
type Clause struct {
	k    string // requires, ensures, sets, havocs, case
	e    *Expr
	lhs  *Expr
	es   []*Expr
	a, b []*Clause
	pos  string
	n    string
}

type Contract struct {
	key     string
	params  []string
	results []string
	clauses []*Clause
	lets    []*Clause
	pos     string
	trusted bool
	inherit bool
	ptypes  map[string]*TypeX
	why     string
	nobj    bool
}

type LoopInv struct {
	key   string
	n     int
	invs  []*Expr
	names []string
	split []*Expr
}

type GhostDecl struct {
	name  string
	kind  string // int, bool, seq, iseq, map
	field string // owning type, or ""
}

type Macro struct {
	name   string
	params []string
	body   *Expr
}

type UFDecl struct {
	name   string
	arity  int
	bool   bool
	lo, hi *big.Int
}

type Guard struct {
	target string
	param  string
	e      *Expr
	pos    string
	write  bool
}

type Spec struct {
	files     []string
	ghosts    map[string]*GhostDecl // name or Type.$name
	macros    map[string]*Macro
	ufs       map[string]*UFDecl
	models    map[string]*Script
	contracts map[string]*Contract
	corder    []string
	proofs    []*Script
	loops     map[string][]*LoopInv
	guards    map[string]*Guard
	opaque    map[string]bool
	inline    map[string]bool
	assumes   []string
	unroll    map[string]int
	stubs     map[string]string
	depth     int
	also      []string
}

type parser struct {
	t    []Tok
	p    int
	file string
	sp   *Spec
	ops  *[]SOp
}

func NewSpec() *Spec {
	return &Spec{ghosts: map[string]*GhostDecl{}, macros: map[string]*Macro{}, ufs: map[string]*UFDecl{}, models: map[string]*Script{},
		contracts: map[string]*Contract{}, loops: map[string][]*LoopInv{}, guards: map[string]*Guard{}, opaque: map[string]bool{}, inline: map[string]bool{}, unroll: map[string]int{}, stubs: map[string]string{}}
}

func (s *Spec) Load(file string) {
	for _, f := range s.files {
		if f == file {
			return
		}
	}
	s.files = append(s.files, file)
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	p := &parser{t: lex(string(b), file), file: file, sp: s}
	s.depth++
	p.decls()
	s.depth--
}

func (p *parser) fail(msg string) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.cur().line, msg, p.cur().s))
}
func (p *parser) cur() Tok { return p.t[p.p] }
func (p *parser) next() Tok {
	t := p.t[p.p]
	if p.p < len(p.t)-1 {
		p.p++
	}
	return t
}
func (p *parser) is(s string) bool {
	t := p.cur()
	return (t.k == 'o' || t.k == 'i' || t.k == 'l') && t.s == s
}
func (p *parser) acc(s string) bool {
	if p.is(s) {
		p.next()
		return true
	}
	return false
}
func (p *parser) exp(s string) {
	if !p.acc(s) {
		p.fail("expected " + s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != 'i' {
		p.p--
		p.fail("expected identifier")
	}
	return t.s
}
func (p *parser) nl() {
	if p.is("}") || p.cur().k == 'e' {
		return
	}
	if !p.acc("\n") && !p.acc(";") {
		p.fail("expected end of statement")
	}
	for p.acc("\n") || p.acc(";") {
	}
}
func (p *parser) skipNL() {
	for p.acc("\n") || p.acc(";") {
	}
}
func (p *parser) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.cur().line) }

// dotted key like gev.Connection.Send$1 or dyn:"..."
func (p *parser) key() string {
	if p.cur().k == 's' {
		return p.next().s
	}
	s := p.ident()
	for p.is(".") {
		p.next()
		s += "." + p.ident()
	}
	return s
}

func (p *parser) names() []string {
	var r []string
	p.exp("(")
	for !p.is(")") {
		r = append(r, p.ident())
		if !p.acc(",") {
			break
		}
	}
	p.exp(")")
	return r
}

func (p *parser) decls() {
	sp := p.sp
	for {
		p.skipNL()
		if p.cur().k == 'e' {
			return
		}
		pos := p.pos()
		switch d := p.ident(); d {
		case "include":
			f := p.next().s
			sp.Load(filepath.Join(filepath.Dir(p.file), f))
			p.nl()
		case "also": // the proofs of another file, under that file's own contracts and models
			f := p.next().s
			if sp.depth == 1 {
				sp.also = append(sp.also, filepath.Join(filepath.Dir(p.file), f))
			}
			p.nl()
		case "ghost":
			n := p.key()
			k := p.ident()
			g := &GhostDecl{name: n, kind: k}
			if i := strings.LastIndex(n, ".$"); i >= 0 {
				g.field = n[:i]
				g.name = n[i+1:]
			}
			sp.ghosts[n] = g
			p.nl()
		case "spec":
			n := p.ident()
			var ps []string
			if p.is("(") {
				ps = p.names()
			}
			p.exp("=")
			p.skipNL()
			sp.macros[n] = &Macro{n, ps, p.expr()}
			p.nl()
		case "uf":
			n := p.ident()
			p.exp("(")
			a, _ := strconv.Atoi(p.next().s)
			p.exp(")")
			u := &UFDecl{name: n, arity: a}
			switch k := p.ident(); k {
			case "bool":
				u.bool = true
			case "byte":
				u.lo, u.hi = big0, big255
			case "nat":
				u.lo = big0
			case "len":
				u.lo, u.hi = big0, maxLen
			case "int":
			default:
				p.fail("uf sort")
			}
			sp.ufs[n] = u
			p.nl()
		case "assumption":
			sp.assumes = append(sp.assumes, p.next().s)
			p.nl()
		case "opaque":
			sp.opaque[p.key()] = true
			p.nl()
		case "inline":
			sp.inline[p.key()] = true
			p.nl()
		case "unroll":
			k := p.key()
			n, _ := strconv.Atoi(p.next().s)
			sp.unroll[k] = n
			p.nl()
		case "model":
			k := p.key()
			s := &Script{name: "model " + k, pos: pos}
			s.params = p.names()
			if p.is("(") {
				s.results = p.names()
			}
			s.ops = p.block()
			sp.models[k] = s
			p.nl()
		case "proof":
			n := p.ident()
			s := &Script{name: n, pos: pos, workers: 1}
			if p.acc("shards") {
				s.workers, _ = strconv.Atoi(p.next().s)
			}
			s.ops = p.block()
			if sp.depth == 1 {
				sp.proofs = append(sp.proofs, s)
			}
			p.nl()
		case "trusted", "contract":
			c := &Contract{pos: pos, ptypes: map[string]*TypeX{}}
			if d == "trusted" {
				c.trusted = true
				p.exp("contract")
			}
			c.key = p.key()
			p.exp("(")
			for !p.is(")") {
				n := p.ident()
				c.params = append(c.params, n)
				if p.acc(":") {
					c.ptypes[n] = p.typ()
				}
				if !p.acc(",") {
					break
				}
			}
			p.exp(")")
			if p.is("(") {
				c.results = p.names()
			}
			c.clauses = p.clauses()
			c.inherit = sp.depth > 1
			sp.contracts[c.key] = c
			sp.corder = append(sp.corder, c.key)
			p.nl()
		case "loop":
			k := p.key()
			n := -1
			if p.acc("#") {
				n, _ = strconv.Atoi(p.next().s)
			}
			l := &LoopInv{key: k, n: n}
			p.exp("{")
			p.skipNL()
			for !p.acc("}") {
				if p.acc("split") {
					l.split = append(l.split, p.expr())
					p.nl()
					continue
				}
				p.exp("invariant")
				l.names = append(l.names, p.pos())
				l.invs = append(l.invs, p.expr())
				p.nl()
			}
			sp.loops[k] = append(sp.loops[k], l)
			p.nl()
		case "guard":
			g := &Guard{pos: pos}
			if p.acc("write") {
				g.write = true
			}
			g.target = p.key()
			ps := p.names()
			g.param = ps[0]
			p.exp("requires")
			g.e = p.expr()
			if g.write {
				sp.guards[g.target+"!w"] = g
			} else {
				sp.guards[g.target] = g
			}
			p.nl()
		default:
			p.p--
			p.fail("unknown declaration " + d)
		}
	}
}

func (p *parser) clauses() []*Clause {
	var r []*Clause
	p.exp("{")
	p.skipNL()
	for !p.acc("}") {
		pos := p.pos()
		c := &Clause{k: p.ident(), pos: pos}
		switch c.k {
		case "requires", "ensures", "assumes", "rep":
			if p.cur().k == 's' {
				c.n = p.next().s
			}
			c.e = p.expr()
		case "sets", "abs", "makes", "allocs":
			c.lhs = p.postfix()
			p.exp("=")
			c.e = p.expr()
		case "split": // verification only: one case per value in a..b, and one for all others
			c.e = p.expr()
			p.exp("in")
			a := p.addx()
			p.exp("..")
			c.es = []*Expr{a, p.addx()}
		case "let":
			c.n = p.ident()
			p.exp("=")
			c.e = p.expr()
		case "havocs":
			for {
				c.es = append(c.es, p.postfix())
				if !p.acc(",") {
					break
				}
			}
		case "case":
			c.e = p.expr()
			c.a = p.clauses()
			if p.acc("else") {
				c.b = p.clauses()
			}
		default:
			p.fail("unknown clause " + c.k)
		}
		r = append(r, c)
		p.nl()
	}
	return r
}

func (p *parser) typ() *TypeX {
	switch {
	case p.acc("*"):
		return &TypeX{k: "*", a: p.typ()}
	case p.acc("["):
		if p.acc("]") {
			return &TypeX{k: "[]", a: p.typ()}
		}
		n, err := strconv.ParseInt(p.next().s, 0, 64)
		if err != nil {
			p.fail("array length")
		}
		p.exp("]")
		return &TypeX{k: "arr", n: n, a: p.typ()}
	}
	n := p.ident()
	if n == "map" {
		p.exp("[")
		a := p.typ()
		p.exp("]")
		return &TypeX{k: "map", a: a, b: p.typ()}
	}
	if n == "typeof" {
		p.exp("(")
		k := p.key()
		p.exp(")")
		return &TypeX{k: "typeof", name: k}
	}
	if n == "func" && p.acc("(") {
		t := &TypeX{k: "func"}
		for !p.acc(")") {
			t.ps = append(t.ps, p.typ())
			p.acc(",")
		}
		return t
	}
	for p.acc(".") {
		n += "." + p.ident()
	}
	return &TypeX{k: "name", name: n}
}

// ---- scripts

func (p *parser) block() []SOp {
	var ops []SOp
	save := p.ops
	p.ops = &ops
	p.stmts()
	p.ops = save
	return ops
}

func (p *parser) emit(o SOp) int {
	*p.ops = append(*p.ops, o)
	return len(*p.ops) - 1
}

func (p *parser) stmts() {
	p.exp("{")
	p.skipNL()
	for !p.acc("}") {
		p.stmt()
		p.nl()
	}
}

func (p *parser) stmt() {
	pos := p.pos()
	if p.cur().k == 'i' {
		switch p.cur().s {
		case "let":
			p.next()
			n := p.ident()
			p.exp("=")
			p.emit(SOp{k: "let", name: n, e: p.expr(), pos: pos})
			return
		case "sym", "any", "new", "obj":
			k := p.next().s
			for {
				n := p.ident()
				p.exp(":")
				p.emit(SOp{k: k, name: n, typ: p.typ(), pos: pos})
				if !p.acc(",") {
					return
				}
			}
		case "assume", "assert":
			k := p.next().s
			n := ""
			if p.cur().k == 's' {
				n = p.next().s
				if !p.acc(":") {
					p.fail("expected : after the name")
				}
			}
			p.emit(SOp{k: k, name: n, e: p.expr(), pos: pos})
			return
		case "havoc":
			p.next()
			o := SOp{k: "havoc", pos: pos}
			for {
				o.es = append(o.es, p.postfix())
				if !p.acc(",") {
					break
				}
			}
			p.emit(o)
			return
		case "if":
			p.next()
			e := p.expr()
			br := p.emit(SOp{k: "br", e: e, pos: pos})
			p.stmts()
			if p.acc("else") {
				j := p.emit(SOp{k: "jmp"})
				(*p.ops)[br].to = len(*p.ops)
				if p.is("if") {
					p.stmt()
				} else {
					p.stmts()
				}
				(*p.ops)[j].to = len(*p.ops)
			} else {
				(*p.ops)[br].to = len(*p.ops)
			}
			return
		case "choose":
			p.next()
			ch := p.emit(SOp{k: "choose", pos: pos})
			var js, tos []int
			for {
				tos = append(tos, len(*p.ops))
				p.stmts()
				js = append(js, p.emit(SOp{k: "jmp"}))
				if !p.acc("or") {
					break
				}
			}
			for _, j := range js {
				(*p.ops)[j].to = len(*p.ops)
			}
			(*p.ops)[ch].tos = tos
			return
		case "fork":
			p.next()
			n := p.ident()
			p.exp("in")
			a := p.addx()
			p.exp("..")
			b := p.addx()
			p.emit(SOp{k: "fork", name: n, es: []*Expr{a, b}, pos: pos})
			return
		case "return":
			p.next()
			o := SOp{k: "return", pos: pos}
			for !p.is("\n") && !p.is("}") && !p.is(";") {
				o.es = append(o.es, p.expr())
				if !p.acc(",") {
					break
				}
			}
			p.emit(o)
			return
		case "stop":
			p.next()
			p.emit(SOp{k: "stop", pos: pos})
			return
		case "fail":
			p.next()
			p.emit(SOp{k: "fail", name: p.next().s, pos: pos})
			return
		case "snap":
			p.next()
			p.emit(SOp{k: "snap", name: p.ident(), pos: pos})
			return
		case "trace":
			p.next()
			p.emit(SOp{k: "trace", name: p.next().s, pos: pos})
			return
		case "call", "run":
			k := p.next().s
			o := SOp{k: k, pos: pos}
			// [names =] key(args)
			save := p.p
			var ns []string
			ok := true
			for {
				if p.cur().k != 'i' {
					ok = false
					break
				}
				ns = append(ns, p.ident())
				if !p.acc(",") {
					break
				}
			}
			if ok && p.acc("=") {
				o.names = ns
			} else {
				p.p = save
			}
			o.name = p.key()
			p.exp("(")
			for !p.is(")") {
				o.es = append(o.es, p.expr())
				if !p.acc(",") {
					break
				}
			}
			p.exp(")")
			p.emit(o)
			return
		}
	}
	l := p.unary()
	if p.acc(":=") {
		if l.op != "id" {
			p.fail("bad :=")
		}
		p.emit(SOp{k: "let", name: l.name, e: p.expr(), pos: pos})
		return
	}
	p.exp("=")
	p.emit(SOp{k: "assign", lhs: l, e: p.expr(), pos: pos})
}

// ---- expressions

func (p *parser) mk(op string, args ...*Expr) *Expr { return &Expr{op: op, args: args, pos: p.pos()} }

func (p *parser) expr() *Expr {
	if p.is("forall") || p.is("exists") {
		op := p.next().s
		n := p.ident()
		p.exp("in")
		lo := p.addx()
		p.exp("..")
		hi := p.addx()
		p.exp(":")
		e := p.mk(op, lo, hi, nil)
		e.name = n
		e.args[2] = p.expr()
		return e
	}
	a := p.orx()
	if p.acc("==>") {
		return p.mk("==>", a, p.expr())
	}
	if p.acc("<==>") {
		return p.mk("<==>", a, p.orx())
	}
	if p.acc("?") {
		b := p.expr()
		p.exp(":")
		return p.mk("ite", a, b, p.expr())
	}
	return a
}
func (p *parser) orx() *Expr {
	a := p.andx()
	for p.acc("||") {
		a = p.mk("||", a, p.andx())
	}
	return a
}
func (p *parser) andx() *Expr {
	a := p.cmpx()
	for p.acc("&&") {
		a = p.mk("&&", a, p.cmpx())
	}
	return a
}
func (p *parser) cmpx() *Expr {
	a := p.addx()
	for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
		if p.acc(o) {
			b := p.addx()
			r := p.mk(o, a, b)
			// chains: a <= b < c
			for _, o2 := range []string{"<=", "<"} {
				if (o == "<=" || o == "<") && p.acc(o2) {
					r = p.mk("&&", r, p.mk(o2, b, p.addx()))
					break
				}
			}
			return r
		}
	}
	return a
}
func (p *parser) addx() *Expr {
	a := p.mulx()
	for {
		switch {
		case p.acc("+"):
			a = p.mk("+", a, p.mulx())
		case p.acc("-"):
			a = p.mk("-", a, p.mulx())
		case p.acc("|"):
			a = p.mk("|", a, p.mulx())
		case p.acc("^"):
			a = p.mk("^", a, p.mulx())
		default:
			return a
		}
	}
}
func (p *parser) mulx() *Expr {
	a := p.unary()
	for {
		switch {
		case p.acc("*"):
			a = p.mk("*", a, p.unary())
		case p.acc("/"):
			a = p.mk("/", a, p.unary())
		case p.acc("%"):
			a = p.mk("%", a, p.unary())
		case p.acc("&"):
			a = p.mk("&", a, p.unary())
		case p.acc("<<"):
			a = p.mk("<<", a, p.unary())
		case p.acc(">>"):
			a = p.mk(">>", a, p.unary())
		default:
			return a
		}
	}
}
func (p *parser) unary() *Expr {
	switch {
	case p.acc("!"):
		return p.mk("!", p.unary())
	case p.acc("-"):
		return p.mk("neg", p.unary())
	case p.acc("*"):
		return p.mk("deref", p.unary())
	case p.acc("&"):
		return p.mk("addr", p.unary())
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	a := p.primary()
	for {
		switch {
		case p.acc("."):
			if p.acc("*") {
				a = p.mk("allfields", a)
				continue
			}
			e := p.mk("field", a)
			e.name = p.ident()
			a = e
		case p.acc("["):
			if p.acc(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.exp("]")
				a = p.mk("slice", a, nil, hi)
				continue
			}
			i := p.expr()
			if p.acc(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.exp("]")
				a = p.mk("slice", a, i, hi)
				continue
			}
			p.exp("]")
			a = p.mk("index", a, i)
		case p.is("("):
			// call: only after id or field chains
			nm := flatName(a)
			if nm == "" {
				p.fail("call of a non-name")
			}
			p.next()
			e := p.mk("call")
			e.name = nm
			switch nm {
			case "istype", "unbox", "unboxref", "zero", "seqof", "conv", "typeid", "cast":
				e.typ = p.typ()
				if !p.acc(",") {
					p.exp(")")
					a = e
					continue
				}
			case "at":
				x := p.mk("id")
				x.name = p.ident()
				e.args = append(e.args, x)
				p.exp(",")
			case "seqfn":
				e.args = append(e.args, p.expr())
				p.exp(",")
				x := p.mk("id")
				x.name = p.ident()
				e.args = append(e.args, x)
				p.exp(",")
			}
			for !p.is(")") {
				e.args = append(e.args, p.expr())
				if !p.acc(",") {
					break
				}
			}
			p.exp(")")
			a = e
		default:
			return a
		}
	}
}

func flatName(e *Expr) string {
	switch e.op {
	case "id":
		return e.name
	case "field":
		if s := flatName(e.args[0]); s != "" {
			return s + "." + e.name
		}
	}
	return ""
}

func (p *parser) primary() *Expr {
	t := p.cur()
	switch {
	case t.k == 'n':
		p.next()
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("number")
		}
		e := p.mk("num")
		e.n = n
		return e
	case t.k == 's':
		p.next()
		e := p.mk("str")
		e.name = t.s
		return e
	case t.s == "(":
		p.next()
		e := p.expr()
		p.exp(")")
		return e
	case t.s == "forall" || t.s == "exists":
		return p.expr()
	case t.k == 'i':
		p.next()
		e := p.mk("id")
		e.name = t.s
		return e
	}
	p.fail("expression")
	return nil
}

func (e *Expr) String() string {
	if e == nil {
		return ""
	}
	var as []string
	for _, a := range e.args {
		as = append(as, a.String())
	}
	switch e.op {
	case "num":
		return e.n.String()
	case "str":
		return strconv.Quote(e.name)
	case "id":
		return e.name
	case "field":
		return as[0] + "." + e.name
	case "index":
		return as[0] + "[" + as[1] + "]"
	case "slice":
		return as[0] + "[" + as[1] + ":" + as[2] + "]"
	case "call":
		return e.name + "(" + strings.Join(as, ", ") + ")"
	case "forall", "exists":
		return e.op + " " + e.name + " in " + as[0] + ".." + as[1] + ": " + as[2]
	case "ite":
		return "(" + as[0] + " ? " + as[1] + " : " + as[2] + ")"
	case "!":
		return "!" + as[0]
	case "neg":
		return "-" + as[0]
	case "deref":
		return "*" + as[0]
	}
	if len(as) == 2 {
		return "(" + as[0] + " " + e.op + " " + as[1] + ")"
	}
	return e.op + "(" + strings.Join(as, ", ") + ")"
}
