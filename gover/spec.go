package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- contract files -----------------------------------------------------------

type Clause struct {
	Text string
	E    *Expr
	File string
	Line int

	Assumed bool // a postcondition which is not verified (listed as assumption)
}

var reRangeInv = regexp.MustCompile(`^(?:\d+ <= )?(\w+) <= (\d+)$`)

type LoopSpec struct {
	Inv    []Clause
	Hi     map[string]*big.Int // constant upper bounds stated by invariants
	Dec    []Clause
	NoTerm bool
	NoAuto bool
}

type Contract struct {
	Key           string // e.g. parser.(*Parser).ReadBytes
	Params        []string
	Results       []string
	Props         []string
	Requires      []Clause
	Ensures       []Clause
	Modifies      []Clause
	Loops         map[int]*LoopSpec
	Trusted       bool // assumed, body not verified
	Inline        bool // callers execute the body, contract checked separately
	Lemma         bool
	NoAuto        bool // no invariant candidates for loops with annotations
	NoFrame       bool
	NoSafety      bool
	AnyMod        bool
	Kinds         string
	File          string
	Line          int
	Timeout       int
	Cases         []Clause // case splits for every obligation
	ConcretePanic bool
	Impls         []string // functions which values of this function or interface type can be
	InlineCalls   []string // callees executed in place although they have a contract
	Asserts       []Clause // intermediate steps, at each return where their names exist
	MayRefuse     bool     // explicit panics are allowed
	NilRecv       bool
	NoAlloc       bool
	AllocBound    *Clause
}

type Macro struct {
	Name   string
	Params []string
	Body   *Expr
}

type SpecFunc struct {
	Name string
	Args []Sort
	Res  Sort
}

type Specs struct {
	Contracts map[string]*Contract
	Order     []string
	Macros    map[string]*Macro
	Funcs     map[string]*SpecFunc
	Axioms    []Clause
	Ghosts    map[string]Sort
}

func newSpecs() *Specs {
	return &Specs{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, Funcs: map[string]*SpecFunc{}, Ghosts: map[string]Sort{}}
}

func (S *Specs) load(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var cur *Contract
	var curLoop *LoopSpec
	lines := strings.Split(string(data), "\n")
	for i := 0; i < len(lines); i++ {
		ln := i + 1
		l := strings.TrimSpace(lines[i])
		if !strings.HasPrefix(l, "//@") {
			if l != "" && !strings.HasPrefix(l, "//") && !strings.HasPrefix(l, "package ") {
				return fmt.Errorf("%s:%d: contract files contain only comments", file, ln)
			}
			continue
		}
		l = strings.TrimSpace(l[3:])
		// continuation lines
		for i+1 < len(lines) {
			n := strings.TrimSpace(lines[i+1])
			if strings.HasPrefix(n, "//@+") {
				l += " " + strings.TrimSpace(n[4:])
				i++
				continue
			}
			break
		}
		if l == "" {
			continue
		}
		word, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		clause := func() (Clause, error) {
			e, err := parseExpr(rest)
			if err != nil {
				return Clause{}, fmt.Errorf("%s:%d: %v in %q", file, ln, err, rest)
			}
			return Clause{Text: rest, E: e, File: file, Line: ln}, nil
		}
		need := func() error {
			if cur == nil {
				return fmt.Errorf("%s:%d: %s outside func", file, ln, word)
			}
			return nil
		}
		switch word {
		case "func", "trusted", "lemma":
			curLoop = nil
			trusted := word == "trusted"
			if trusted {
				rest = strings.TrimSpace(strings.TrimPrefix(rest, "func "))
			}
			c := &Contract{Loops: map[int]*LoopSpec{}, File: file, Line: ln, Trusted: trusted, Lemma: word == "lemma"}
			// key(params) (results)
			sig := rest
			p := strings.LastIndex(sig, " returns ")
			if p >= 0 {
				for _, r := range strings.Split(strings.Trim(strings.TrimSpace(sig[p+9:]), "()"), ",") {
					c.Results = append(c.Results, strings.TrimSpace(r))
				}
				sig = strings.TrimSpace(sig[:p])
			}
			if strings.HasSuffix(sig, ")") {
				q := strings.LastIndex(sig, "(")
				for _, r := range strings.Split(sig[q+1:len(sig)-1], ",") {
					if r = strings.TrimSpace(r); r != "" {
						c.Params = append(c.Params, r)
					}
				}
				sig = strings.TrimSpace(sig[:q])
			}
			c.Key = sig
			if S.Contracts[c.Key] != nil {
				return fmt.Errorf("%s:%d: duplicate contract %s", file, ln, c.Key)
			}
			S.Contracts[c.Key] = c
			S.Order = append(S.Order, c.Key)
			cur = c
		case "props":
			if err := need(); err != nil {
				return err
			}
			cur.Props = strings.Fields(rest)
		case "requires", "ensures", "assumed", "modifies", "invariant", "decreases", "case":
			if err := need(); err != nil {
				return err
			}
			if word == "modifies" {
				if rest == "nothing" {
					continue
				}
				if rest == "anything" {
					cur.AnyMod = true
					continue
				}
				for _, part := range splitTop(rest) {
					e, err := parseExpr(part)
					if err != nil {
						return fmt.Errorf("%s:%d: %v", file, ln, err)
					}
					cur.Modifies = append(cur.Modifies, Clause{Text: part, E: e, File: file, Line: ln})
				}
				continue
			}
			if word == "decreases" {
				if curLoop == nil {
					return fmt.Errorf("%s:%d: decreases outside loop", file, ln)
				}
				if rest == "trusted" {
					curLoop.NoTerm = true
					continue
				}
				for _, part := range splitTop(rest) {
					e, err := parseExpr(part)
					if err != nil {
						return fmt.Errorf("%s:%d: %v", file, ln, err)
					}
					curLoop.Dec = append(curLoop.Dec, Clause{Text: part, E: e, File: file, Line: ln})
				}
				continue
			}
			cl, err := clause()
			if err != nil {
				return err
			}
			switch word {
			case "requires":
				cur.Requires = append(cur.Requires, cl)
			case "ensures":
				cur.Ensures = append(cur.Ensures, cl)
			case "assumed":
				cl.Assumed = true
				cur.Ensures = append(cur.Ensures, cl)
			case "case":
				cur.Cases = append(cur.Cases, cl)
			case "invariant":
				if curLoop == nil {
					return fmt.Errorf("%s:%d: invariant outside loop", file, ln)
				}
				curLoop.Inv = append(curLoop.Inv, cl)
				if m := reRangeInv.FindStringSubmatch(rest); m != nil {
					if v, ok := new(big.Int).SetString(m[2], 0); ok {
						if curLoop.Hi == nil {
							curLoop.Hi = map[string]*big.Int{}
						}
						curLoop.Hi[m[1]] = v
					}
				}
			}
		case "loop":
			if err := need(); err != nil {
				return err
			}
			var n int
			fmt.Sscanf(rest, "%d", &n)
			curLoop = &LoopSpec{}
			cur.Loops[n] = curLoop
		case "inline":
			cur.Inline = true
		case "noframe":
			cur.NoFrame = true
		case "noauto":
			if curLoop != nil {
				curLoop.NoAuto = true
			} else if cur != nil {
				cur.NoAuto = true
			}
		case "assert":
			if err := need(); err != nil {
				return err
			}
			cl, err := clause()
			if err != nil {
				return err
			}
			cur.Asserts = append(cur.Asserts, cl)
		case "mayrefuse":
			cur.MayRefuse = true
		case "nilrecv":
			cur.NilRecv = true
		case "noalloc":
			cur.NoAlloc = true
		case "implementors":
			for _, f := range strings.Split(rest, ",") {
				cur.Impls = append(cur.Impls, strings.TrimSpace(f))
			}
		case "inlines":
			cur.InlineCalls = append(cur.InlineCalls, strings.Fields(rest)...)
		case "allocbound":
			cl, err := clause()
			if err != nil {
				return err
			}
			cur.AllocBound = &cl
		case "timeout":
			fmt.Sscanf(rest, "%d", &cur.Timeout)
		case "kinds":
			cur.Kinds = rest
		case "def":
			// def name(a, b) = expr
			hd, body, ok := strings.Cut(rest, "=")
			if !ok {
				return fmt.Errorf("%s:%d: bad def", file, ln)
			}
			// allow '=' inside: split at first '=' after ')'
			if q := strings.Index(rest, ")"); q >= 0 {
				k := strings.Index(rest[q:], "=")
				hd, body = rest[:q+k], rest[q+k+1:]
			}
			hd = strings.TrimSpace(hd)
			m := &Macro{}
			if q := strings.Index(hd, "("); q >= 0 {
				m.Name = hd[:q]
				for _, r := range strings.Split(strings.TrimSuffix(hd[q+1:], ")"), ",") {
					if r = strings.TrimSpace(r); r != "" {
						m.Params = append(m.Params, r)
					}
				}
			} else {
				m.Name = hd
			}
			e, err := parseExpr(strings.TrimSpace(body))
			if err != nil {
				return fmt.Errorf("%s:%d: %v", file, ln, err)
			}
			m.Body = e
			S.Macros[m.Name] = m
		case "specfunc":
			// specfunc name(Int, Arr) Int
			q := strings.Index(rest, "(")
			p := strings.LastIndex(rest, ")")
			f := &SpecFunc{Name: "spec_" + rest[:q], Res: sortName(strings.TrimSpace(rest[p+1:]))}
			for _, r := range strings.Split(rest[q+1:p], ",") {
				if r = strings.TrimSpace(r); r != "" {
					f.Args = append(f.Args, sortName(r))
				}
			}
			S.Funcs[rest[:q]] = f
		case "axiom":
			cl, err := clause()
			if err != nil {
				return err
			}
			S.Axioms = append(S.Axioms, cl)
		case "ghost":
			n, s, _ := strings.Cut(rest, " ")
			S.Ghosts[n] = sortName(strings.TrimSpace(s))
		default:
			return fmt.Errorf("%s:%d: unknown keyword %q", file, ln, word)
		}
	}
	return nil
}

func sortName(s string) Sort {
	switch s {
	case "Arr":
		return arrSort(SInt, SInt)
	case "":
		return SInt
	}
	return Sort(s)
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// ---- expressions ---------------------------------------------------------------

type Expr struct {
	Op   string // int, str, id, field, ghost, index, call, un, bin, forall, exists, if, old, slice
	S    string
	N    *big.Int
	Args []*Expr
	Vars []string
	Pats [][]*Expr
}

type specLex struct {
	toks []string
	pos  int
}

func lexSpec(s string) ([]string, error) {
	var out []string
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string")
			}
			out = append(out, s[i:j+1])
			i = j + 1
		case c == '\'':
			if i+2 < len(s) && s[i+2] == '\'' {
				out = append(out, fmt.Sprint(int(s[i+1])))
				i += 3
			} else {
				return nil, fmt.Errorf("bad char literal")
			}
		case isId(c) || c == '$' || c == '#':
			j := i + 1
			for j < len(s) && isId(s[j]) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			for _, op := range []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", "<<"} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, op)
					i += len(op)
					goto next
				}
			}
			out = append(out, string(c))
			i++
		next:
		}
	}
	return out, nil
}

func parseExpr(s string) (e *Expr, err error) {
	toks, err := lexSpec(s)
	if err != nil {
		return nil, err
	}
	p := &specLex{toks: toks}
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(string); ok {
				err = fmt.Errorf("%s", m)
				return
			}
			panic(r)
		}
	}()
	e = p.iff()
	if p.pos != len(p.toks) {
		return nil, fmt.Errorf("unexpected %q", p.toks[p.pos])
	}
	return e, nil
}

func (p *specLex) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}
func (p *specLex) next() string {
	t := p.peek()
	p.pos++
	return t
}
func (p *specLex) expect(s string) {
	if p.next() != s {
		panic(fmt.Sprintf("expected %q at token %d", s, p.pos))
	}
}

func bin(op string, a, b *Expr) *Expr { return &Expr{Op: "bin", S: op, Args: []*Expr{a, b}} }

func (p *specLex) iff() *Expr {
	a := p.impl()
	for p.peek() == "<==>" {
		p.next()
		a = bin("<==>", a, p.impl())
	}
	return a
}
func (p *specLex) impl() *Expr {
	a := p.or()
	if p.peek() == "==>" {
		p.next()
		return bin("==>", a, p.impl())
	}
	return a
}
func (p *specLex) or() *Expr {
	a := p.and()
	for p.peek() == "||" {
		p.next()
		a = bin("||", a, p.and())
	}
	return a
}
func (p *specLex) and() *Expr {
	a := p.cmp()
	for p.peek() == "&&" {
		p.next()
		a = bin("&&", a, p.cmp())
	}
	return a
}
func (p *specLex) cmp() *Expr {
	a := p.add()
	var res *Expr
	for {
		op := p.peek()
		switch op {
		case "==", "!=", "<", "<=", ">", ">=":
			p.next()
			b := p.add()
			e := bin(op, a, b)
			if res == nil {
				res = e
			} else {
				res = bin("&&", res, e)
			}
			a = b
			continue
		}
		break
	}
	if res == nil {
		return a
	}
	return res
}
func (p *specLex) add() *Expr {
	a := p.mul()
	for p.peek() == "+" || p.peek() == "-" {
		op := p.next()
		a = bin(op, a, p.mul())
	}
	return a
}
func (p *specLex) mul() *Expr {
	a := p.unary()
	for p.peek() == "*" || p.peek() == "/" || p.peek() == "%" {
		op := p.next()
		if op == "*" && (p.peek() == "" || p.peek() == ",") {
			p.pos--
			break
		}
		a = bin(op, a, p.unary())
	}
	return a
}
func (p *specLex) unary() *Expr {
	switch p.peek() {
	case "!":
		p.next()
		return &Expr{Op: "un", S: "!", Args: []*Expr{p.unary()}}
	case "-":
		p.next()
		return &Expr{Op: "un", S: "-", Args: []*Expr{p.unary()}}
	}
	return p.postfix()
}

func (p *specLex) postfix() *Expr {
	e := p.primary()
	for {
		switch p.peek() {
		case ".":
			p.next()
			n := p.next()
			if strings.HasPrefix(n, "$") {
				e = &Expr{Op: "ghost", S: n[1:], Args: []*Expr{e}}
			} else {
				e = &Expr{Op: "field", S: n, Args: []*Expr{e}}
			}
		case "[":
			p.next()
			i := p.iff()
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}}
		case "(":
			if e.Op != "id" {
				return e
			}
			p.next()
			c := &Expr{Op: "call", S: e.S}
			for p.peek() != ")" {
				c.Args = append(c.Args, p.iff())
				if p.peek() == "," {
					p.next()
				}
			}
			p.next()
			if c.S == "old" {
				c.Op = "old"
			}
			e = c
		default:
			return e
		}
	}
}

func (p *specLex) primary() *Expr {
	t := p.next()
	switch {
	case t == "":
		panic("unexpected end of expression")
	case t == "(":
		e := p.iff()
		p.expect(")")
		return e
	case t == "*":
		return &Expr{Op: "id", S: "*"}
	case t == "forall" || t == "exists":
		e := &Expr{Op: t}
		for {
			v := p.next()
			if p.peek() == ":" {
				p.next()
				v += "$" + p.next()
			}
			e.Vars = append(e.Vars, v)
			if p.peek() == "," {
				p.next()
				continue
			}
			break
		}
		p.expect("::")
		for p.peek() == "{" {
			p.next()
			var g []*Expr
			for p.peek() != "}" {
				g = append(g, p.iff())
				if p.peek() == "," {
					p.next()
				}
			}
			p.next()
			e.Pats = append(e.Pats, g)
		}
		e.Args = []*Expr{p.iff()}
		return e
	case t == "if":
		c := p.iff()
		if p.next() != "then" {
			panic("expected then")
		}
		a := p.iff()
		if p.next() != "else" {
			panic("expected else")
		}
		b := p.iff()
		return &Expr{Op: "if", Args: []*Expr{c, a, b}}
	case t[0] == '"':
		return &Expr{Op: "str", S: t[1 : len(t)-1]}
	case t[0] >= '0' && t[0] <= '9':
		n, ok := new(big.Int).SetString(t, 0)
		if !ok {
			panic("bad number " + t)
		}
		return &Expr{Op: "int", N: n}
	}
	return &Expr{Op: "id", S: t}
}

// ---- evaluation ----------------------------------------------------------------

// SV is a specification value: a term, or a Go value with its type.
type SV struct {
	T *Term
	V *Val
}

// Env resolves names for specification expressions.
type Env struct {
	u       *Unit
	st      *State
	old     *State
	names   func(string) (Val, bool)
	bound   map[string]SV
	fn      *ssa.Function
	depth   int
	allocAt *Term // allocation counter that separates old from fresh objects
	lc      *loopCtx
}

func (e *Env) with(k string, v SV) *Env {
	n := *e
	n.bound = map[string]SV{}
	for a, b := range e.bound {
		n.bound[a] = b
	}
	n.bound[k] = v
	return &n
}

type specErr struct{ msg string }

func (e *Env) fail(f string, a ...any) {
	panic(specErr{fmt.Sprintf(f, a...)})
}

func (u *Unit) evalClause(env *Env, cl Clause) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s (in %q)", s.msg, cl.Text)
				return
			}
			panic(r)
		}
	}()
	sv := env.eval(cl.E)
	if sv.T == nil && sv.V != nil && len(sv.V.L) == 1 {
		sv.T = sv.V.L[0]
	}
	if sv.T == nil || sv.T.sort != SBool {
		return nil, fmt.Errorf("%q is not a boolean", cl.Text)
	}
	return sv.T, nil
}

func (u *Unit) evalTerm(env *Env, cl Clause) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s (in %q)", s.msg, cl.Text)
				return
			}
			panic(r)
		}
	}()
	return env.term(cl.E), nil
}

func (e *Env) term(x *Expr) *Term {
	v := e.eval(x)
	if v.T != nil {
		return v.T
	}
	if v.V != nil && len(v.V.L) == 1 {
		return v.V.L[0]
	}
	if v.V != nil && len(v.V.L) == 2 { // interface: compare by tag/payload elsewhere
		return v.V.L[1]
	}
	e.fail("expression is not scalar")
	return nil
}

func (e *Env) val(x *Expr) Val {
	v := e.eval(x)
	if v.V == nil {
		e.fail("expression is not a Go value")
	}
	return *v.V
}

func (e *Env) lookup(n string) (SV, bool) {
	if v, ok := e.bound[n]; ok {
		return v, true
	}
	if e.names != nil {
		if v, ok := e.names(n); ok {
			return e.wrap(v), true
		}
	}
	return SV{}, false
}

func (e *Env) wrap(v Val) SV {
	if len(v.L) == 1 {
		return SV{T: v.L[0], V: &v}
	}
	return SV{V: &v}
}

func (e *Env) eval(x *Expr) SV {
	u := e.u
	c := u.c
	switch x.Op {
	case "int":
		return SV{T: c.Big(x.N)}
	case "str":
		t := c.StrConst(x.S)
		u.strFacts(t)
		return SV{T: t, V: &Val{T: types.Typ[types.String], L: []*Term{t}}}
	case "id":
		switch x.S {
		case "true":
			return SV{T: c.tTrue}
		case "false":
			return SV{T: c.tFalse}
		case "nil":
			return SV{T: c.Int(0), V: &Val{T: types.Typ[types.UntypedNil], L: []*Term{c.Int(0)}}}
		}
		if v, ok := e.lookup(x.S); ok {
			return v
		}
		if m := u.P.S.Macros[x.S]; m != nil && len(m.Params) == 0 {
			return e.eval(m.Body)
		}
		if v, ok := u.pkgScope(e, x.S); ok {
			return v
		}
		e.fail("unknown name %q", x.S)
	case "field":
		return e.field(x)
	case "ghost":
		s, ok := u.P.S.Ghosts[x.S]
		if !ok {
			e.fail("unknown ghost field %s", x.S)
		}
		b := e.eval(x.Args[0])
		key := u.ghostKey(x.S, s)
		return SV{T: c.Select(u.heapGet(e.st, key, arrSort(SInt, s)), e.ghostRef(b))}
	case "index":
		return e.index(x)
	case "un":
		t := e.term(x.Args[0])
		if x.S == "!" {
			return SV{T: c.Not(t)}
		}
		return SV{T: c.Neg(t)}
	case "bin":
		return e.binary(x)
	case "if":
		cond := e.term(x.Args[0])
		return SV{T: c.Ite(cond, e.term(x.Args[1]), e.term(x.Args[2]))}
	case "old":
		if e.old == nil {
			e.fail("old() not available here")
		}
		n := *e
		n.st = e.old
		n.old = e.old
		return n.eval(x.Args[0])
	case "forall", "exists":
		n := e
		var vars []*Term
		for _, v := range x.Vars {
			name, srt, hasS := strings.Cut(v, "$")
			s := SInt
			if hasS {
				s = sortName(srt)
			}
			b := c.Bound(name, s)
			vars = append(vars, b)
			n = n.with(name, SV{T: b})
		}
		body := n.term(x.Args[0])
		var pats [][]*Term
		for _, g := range x.Pats {
			var p []*Term
			for _, pe := range g {
				p = append(p, n.term(pe))
			}
			pats = append(pats, p)
		}
		if x.Op == "forall" {
			return SV{T: c.Forall(vars, body, pats...)}
		}
		return SV{T: c.Exists(vars, body)}
	case "call":
		return e.callExpr(x)
	}
	e.fail("bad expression %s", x.Op)
	return SV{}
}

func (u *Unit) ghostKey(name string, s Sort) string {
	key := "$:" + name
	if _, ok := u.P.keyLeaf[key]; !ok {
		u.P.keyLeaf[key] = Leaf{Path: name, Sort: arrSort(SInt, s), Kind: lkBool}
	}
	return key
}

func (e *Env) ghostRef(b SV) *Term {
	if b.V != nil {
		switch b.V.T.Underlying().(type) {
		case *types.Interface:
			return b.V.L[1]
		}
		if len(b.V.L) >= 1 {
			return b.V.L[0]
		}
	}
	if b.T != nil {
		return b.T
	}
	e.fail("ghost field of non-reference")
	return nil
}

func (e *Env) field(x *Expr) SV {
	u := e.u
	// package-qualified?
	if x.Args[0].Op == "id" {
		if _, ok := e.lookup(x.Args[0].S); !ok {
			if v, ok := u.pkgQual(e, x.Args[0].S, x.S); ok {
				return v
			}
		}
	}
	b := e.eval(x.Args[0])
	if b.V == nil {
		e.fail("field %s of non-value", x.S)
	}
	v := *b.V
	t := v.T
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		et := pt.Elem()
		idx, ft, ok := findField(et, x.S)
		if !ok {
			e.fail("no field %s in %s", x.S, et)
		}
		a := *u.ptrAddr(e.st, v)
		cur := et
		for _, i := range idx {
			s := cur.Underlying().(*types.Struct)
			a.Path += "." + fieldName(s, i)
			cur = s.Field(i).Type()
			if _, isP := cur.Underlying().(*types.Pointer); isP && i != idx[len(idx)-1] {
				e.fail("promoted field through pointer")
			}
		}
		a.T = ft
		if _, ok := ft.Underlying().(*types.Array); ok {
			// represent as array value
			out := Val{T: ft}
			for _, l := range leaves(ft) {
				out.L = append(out.L, u.loadLeafArr(e.st, &a, l))
			}
			return SV{V: &out}
		}
		return e.wrap(u.loadCell(e.st, &a))
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		idx, ft, ok := findField(t, x.S)
		if !ok {
			e.fail("no field %s in %s", x.S, t)
		}
		L := v.L
		cur := st
		for k, i := range idx {
			off, n := fieldOff(cur, i)
			L = L[off : off+n]
			if k < len(idx)-1 {
				cur = cur.Field(i).Type().Underlying().(*types.Struct)
			}
		}
		return e.wrap(Val{T: ft, L: L})
	}
	e.fail("field %s of %s", x.S, t)
	return SV{}
}

// loadLeafArr reads the whole embedded array for leaf l of an array type at a.
func (u *Unit) loadLeafArr(st *State, a *Addr, l Leaf) *Term {
	return u.loadLeaf(st, a, l)
}

func findField(t types.Type, name string) ([]int, types.Type, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}, s.Field(i).Type(), true
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if idx, ft, ok := findField(s.Field(i).Type(), name); ok {
				return append([]int{i}, idx...), ft, true
			}
		}
	}
	return nil, nil, false
}

func (e *Env) index(x *Expr) SV {
	u := e.u
	c := u.c
	b := e.eval(x.Args[0])
	if b.V == nil || b.V.T == nil {
		if b.T != nil && b.T.sort.isArr() {
			return SV{T: c.Select(b.T, e.term(x.Args[1]))}
		}
		e.fail("index of non-value")
	}
	v := *b.V
	switch t := v.T.Underlying().(type) {
	case *types.Slice:
		i := e.term(x.Args[1])
		return e.wrap(u.loadCell(e.st, u.elemAddr(t.Elem(), v.L[0], c.Add(v.L[1], i))))
	case *types.Array:
		i := e.term(x.Args[1])
		out := Val{T: t.Elem()}
		for k, l := range leaves(t.Elem()) {
			s := c.Select(v.L[k], i)
			u.leafFacts(e.st, l, s)
			out.L = append(out.L, s)
		}
		return e.wrap(out)
	case *types.Pointer:
		if at, ok := t.Elem().Underlying().(*types.Array); ok {
			i := e.term(x.Args[1])
			return e.wrap(u.loadCell(e.st, u.elemAddr(at.Elem(), v.L[0], i)))
		}
	case *types.Map:
		k := e.eval(x.Args[1])
		kv := e.coerce(k, t.Key())
		_, r := u.mapGet(e.st, v, kv)
		return e.wrap(r)
	case *types.Basic:
		if isString(v.T) {
			return SV{T: u.sat(v.L[0], e.term(x.Args[1]))}
		}
	}
	e.fail("cannot index %s", v.T)
	return SV{}
}

func (e *Env) coerce(s SV, t types.Type) Val {
	if s.V != nil {
		return *s.V
	}
	return Val{T: t, L: []*Term{s.T}}
}

func (e *Env) binary(x *Expr) SV {
	u := e.u
	c := u.c
	switch x.S {
	case "&&":
		return SV{T: c.And(e.term(x.Args[0]), e.term(x.Args[1]))}
	case "||":
		return SV{T: c.Or(e.term(x.Args[0]), e.term(x.Args[1]))}
	case "==>":
		return SV{T: c.Implies(e.term(x.Args[0]), e.term(x.Args[1]))}
	case "<==>":
		return SV{T: c.Eq(e.term(x.Args[0]), e.term(x.Args[1]))}
	case "==", "!=":
		a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
		var t *Term
		isNil := func(s SV) bool {
			return s.V != nil && s.V.T == types.Typ[types.UntypedNil]
		}
		eqNil := func(v *Val) *Term {
			if v.A != nil {
				// pointers to elements and to embedded fields are not nil
				if v.A.Kind == 'O' && v.A.Ref != nil && v.A.Path == "" {
					return c.Eq(v.A.Ref, c.Int(0))
				}
				return c.tFalse
			}
			return c.Eq(v.L[0], c.Int(0))
		}
		switch {
		case a.V != nil && isNil(b):
			t = eqNil(a.V)
		case b.V != nil && isNil(a):
			t = eqNil(b.V)
		case a.V != nil && b.V != nil && a.V.T != nil && b.V.T != nil && len(a.V.L) == len(b.V.L):
			if _, ok := a.V.T.Underlying().(*types.Slice); ok {
				// identity of slices
				var eqs []*Term
				for i := range a.V.L {
					eqs = append(eqs, c.Eq(a.V.L[i], b.V.L[i]))
				}
				t = c.And(eqs...)
			} else {
				t = u.valEq(e.st, *a.V, *b.V, a.V.T)
			}
		default:
			t = c.Eq(e.scalar(a), e.scalar(b))
		}
		if x.S == "!=" {
			t = c.Not(t)
		}
		return SV{T: t}
	}
	a, b := e.term(x.Args[0]), e.term(x.Args[1])
	switch x.S {
	case "<":
		return SV{T: c.Lt(a, b)}
	case "<=":
		return SV{T: c.Le(a, b)}
	case ">":
		return SV{T: c.Lt(b, a)}
	case ">=":
		return SV{T: c.Le(b, a)}
	case "+":
		return SV{T: c.Add(a, b)}
	case "-":
		return SV{T: c.Sub(a, b)}
	case "*":
		return SV{T: c.Mul(a, b)}
	case "/":
		if a.sort == SReal {
			return SV{T: c.mk("/", "", SReal, a, c.ToReal(b))}
		}
		return SV{T: c.Div(a, b)}
	case "%":
		return SV{T: c.Mod(a, b)}
	}
	e.fail("operator %s", x.S)
	return SV{}
}

func (e *Env) scalar(s SV) *Term {
	if s.T != nil {
		return s.T
	}
	if s.V != nil && len(s.V.L) == 1 {
		return s.V.L[0]
	}
	e.fail("non-scalar operand")
	return nil
}

func (e *Env) callExpr(x *Expr) SV {
	u := e.u
	c := u.c
	arg := func(i int) *Term {
		if i >= len(x.Args) {
			e.fail("%s: missing argument", x.S)
		}
		return e.term(x.Args[i])
	}
	switch x.S {
	case "len", "cap":
		v := e.eval(x.Args[0])
		if v.V == nil {
			e.fail("len of non-value")
		}
		switch t := v.V.T.Underlying().(type) {
		case *types.Slice:
			if x.S == "cap" {
				return SV{T: v.V.L[3]}
			}
			return SV{T: v.V.L[2]}
		case *types.Array:
			return SV{T: c.Int(t.Len())}
		case *types.Map:
			return SV{T: u.mapLen(e.st, *v.V)}
		case *types.Basic:
			return SV{T: u.slen(v.V.L[0])}
		}
		e.fail("len of %s", v.V.T)
	case "ref":
		v := e.val(x.Args[0])
		if _, ok := v.T.Underlying().(*types.Array); ok && x.Args[0].Op == "field" {
			// the block of an array stored inside an object
			b := e.val(x.Args[0].Args[0])
			pt, ok := b.T.Underlying().(*types.Pointer)
			if !ok {
				e.fail("ref of array value")
			}
			idx, _, ok := findField(pt.Elem(), x.Args[0].S)
			if !ok || len(idx) != 1 {
				e.fail("ref of promoted array field")
			}
			a := u.ptrAddr(e.st, b)
			if a.Kind != 'O' {
				e.fail("ref of nested array field")
			}
			return SV{T: u.emb(a.Ref, a.Path+"."+fieldName(pt.Elem().Underlying().(*types.Struct), idx[0]))}
		}
		return SV{T: v.L[0]}
	case "off":
		v := e.val(x.Args[0])
		return SV{T: v.L[1]}
	case "arr": // the raw block contents of a slice of scalars
		v := e.val(x.Args[0])
		sl := v.T.Underlying().(*types.Slice)
		l := leaves(sl.Elem())[0]
		key := u.keyOf('E', typeKey(sl.Elem()), l)
		return SV{T: c.Select(u.heapGet(e.st, key, arrSort(SInt, arrSort(SInt, l.Sort))), v.L[0])}
	case "tag":
		v := e.val(x.Args[0])
		return SV{T: v.L[0]}
	case "payload":
		v := e.val(x.Args[0])
		return SV{T: v.L[1]}
	case "fresh":
		v := e.val(x.Args[0])
		a := e.allocAt
		if a == nil {
			a = u.alloc0
		}
		ref := v.L[0]
		if _, ok := v.T.Underlying().(*types.Interface); ok {
			ref = v.L[1]
		}
		return SV{T: c.And(c.Gt(ref, a), c.Le(ref, e.st.alloc))}
	case "in": // in(m, k)
		m := e.val(x.Args[0])
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			e.fail("in: not a map")
		}
		k := e.coerce(e.eval(x.Args[1]), mt.Key())
		okT, _ := u.mapGet(e.st, m, k)
		return SV{T: okT}
	case "nonnilvals": // nonnilvals(m): no entry of the map m is nil
		m := e.val(x.Args[0])
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			e.fail("nonnilvals: not a map")
		}
		ks, _ := u.keySort(mt.Key())
		q := c.Bound("q", ks)
		l := leaves(mt.Elem())[0]
		vk, vs := u.mapKey(mt, "val", &l)
		dom := c.Select(u.mapDom(e.st, m), q)
		val := c.Select(c.Select(u.heapGet(e.st, vk, vs), m.L[0]), q)
		return SV{T: c.Forall([]*Term{q}, c.Implies(c.And(c.Not(c.Eq(m.L[0], c.Int(0))), dom), c.Not(c.Eq(val, c.Int(0)))), []*Term{dom}, []*Term{val})}
	case "visited": // visited(k): the loop over a map has visited the key k
		if e.lc == nil || e.lc.mapIter() == nil {
			e.fail("visited: not in a loop over a map")
		}
		it := e.lc.mapIter()
		k := e.coerce(e.eval(x.Args[0]), it.mt.Key())
		_, h, _ := u.iterDone(e.st, it)
		return SV{T: c.Select(c.Select(h, it.ref), u.packKey(k, it.mt.Key()))}
	case "typeis": // typeis(x, "pkg.T") or "*pkg.T"
		v := e.val(x.Args[0])
		t := u.P.lookupType(x.Args[1].S)
		if t == nil {
			e.fail("typeis: unknown type %q", x.Args[1].S)
		}
		return SV{T: c.Eq(v.L[0], c.Int(typeID(t)))}
	case "funcid": // funcid("pkg.F"): the function value F
		f := u.P.byName[x.Args[0].S]
		if f == nil {
			e.fail("funcid: unknown function %q", x.Args[0].S)
		}
		return SV{T: c.Int(u.P.funcID(f))}
	case "as": // as(x, "T"): payload viewed as T
		v := e.val(x.Args[0])
		t := u.P.lookupType(x.Args[1].S)
		if t == nil {
			e.fail("as: unknown type %q", x.Args[1].S)
		}
		return e.wrap(u.unbox(e.st, v, t))
	case "ptr": // ptr(term, "T"): view an integer reference as *T
		t := u.P.lookupType(x.Args[1].S)
		if t == nil {
			e.fail("ptr: unknown type %q", x.Args[1].S)
		}
		return e.wrap(Val{T: types.NewPointer(t), L: []*Term{arg(0)}})
	case "be16", "be32", "be8":
		n := 2
		if x.S == "be32" {
			n = 4
		} else if x.S == "be8" {
			n = 1
		}
		r := c.Int(0)
		for k := 0; k < n; k++ {
			ix := &Expr{Op: "index", Args: []*Expr{x.Args[0], bin("+", x.Args[1], &Expr{Op: "int", N: big.NewInt(int64(k))})}}
			r = c.Add(c.Mul(r, c.Int(256)), e.scalar(e.eval(ix)))
		}
		return SV{T: r}
	case "sext8", "sext16", "sext32", "sext64":
		k := map[string]uint{"sext8": 8, "sext16": 16, "sext32": 32, "sext64": 64}[x.S]
		return SV{T: c.Sext(arg(0), k)}
	case "abs":
		a := arg(0)
		return SV{T: c.Ite(c.Ge(a, c.Int(0)), a, c.Neg(a))}
	case "min":
		a, b := arg(0), arg(1)
		return SV{T: c.Ite(c.Le(a, b), a, b)}
	case "max":
		a, b := arg(0), arg(1)
		return SV{T: c.Ite(c.Le(a, b), b, a)}
	case "real":
		return SV{T: c.ToReal(arg(0))}
	case "band":
		a, b := arg(0), arg(1)
		if b.isInt() {
			return SV{T: u.andMask(a, b.val)}
		}
		e.fail("band needs a constant mask")
	case "store":
		return SV{T: c.Store(arg(0), arg(1), arg(2))}
	case "int", "int64", "uint16", "uint8", "uint32", "int16", "int32":
		return SV{T: arg(0)}
	case "allocated":
		v := e.val(x.Args[0])
		a := e.allocAt
		if a == nil {
			a = u.alloc0
		}
		return SV{T: c.Le(v.L[0], a)}
	case "const": // const("expr value name")
	}
	if m := u.P.S.Macros[x.S]; m != nil {
		if len(m.Params) != len(x.Args) {
			e.fail("%s expects %d arguments", x.S, len(m.Params))
		}
		if e.depth > 40 {
			e.fail("macro recursion in %s", x.S)
		}
		n := *e
		n.depth++
		n.bound = map[string]SV{}
		for k, v := range e.bound {
			n.bound[k] = v
		}
		for i, p := range m.Params {
			n.bound[p] = e.eval(x.Args[i])
		}
		return n.eval(m.Body)
	}
	if f := u.P.S.Funcs[x.S]; f != nil {
		var as []*Term
		for i := range x.Args {
			as = append(as, arg(i))
		}
		if len(as) != len(f.Args) {
			e.fail("%s expects %d arguments", x.S, len(f.Args))
		}
		u.needAxioms = true
		return SV{T: c.App(f.Name, f.Res, as...)}
	}
	e.fail("unknown function %s", x.S)
	return SV{}
}

// pkgScope resolves package-level names of the function's package.
func (u *Unit) pkgScope(e *Env, n string) (SV, bool) {
	fn := e.fn
	if fn == nil {
		fn = u.fn
	}
	pk := pkgOf(fn)
	if pk == nil {
		return SV{}, false
	}
	return u.scopeObj(e, pk, n)
}

func pkgOf(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return fn.Origin().Pkg.Pkg
	}
	if fn.Parent() != nil {
		return pkgOf(fn.Parent())
	}
	return nil
}

func (u *Unit) scopeObj(e *Env, pk *types.Package, n string) (SV, bool) {
	obj := pk.Scope().Lookup(n)
	switch o := obj.(type) {
	case *types.Const:
		v := u.constVal(ssa.NewConst(o.Val(), o.Type()))
		return e.wrap(v), true
	case *types.Var:
		sp := u.P.Prog.Package(pk)
		if sp == nil {
			return SV{}, false
		}
		g, ok := sp.Members[n].(*ssa.Global)
		if !ok {
			return SV{}, false
		}
		if r, ok := u.globalConst(e.st, g); ok {
			return e.wrap(r), true
		}
		gv := u.val(nil, e.st, g)
		if _, isArr := o.Type().Underlying().(*types.Array); isArr {
			return e.wrap(u.load(e.st, gv, o.Type())), true
		}
		return e.wrap(u.load(e.st, gv, o.Type())), true
	}
	return SV{}, false
}

func (u *Unit) pkgQual(e *Env, pkg, n string) (SV, bool) {
	for _, p := range u.P.Prog.AllPackages() {
		if p.Pkg.Name() == pkg {
			if v, ok := u.scopeObj(e, p.Pkg, n); ok {
				return v, true
			}
		}
	}
	return SV{}, false
}

// env for loop invariants
func (lc *loopCtx) env() *Env {
	u := lc.u
	return &Env{u: u, st: lc.st, old: lc.fr.entrySt, fn: lc.fr.fn, names: func(n string) (Val, bool) {
		return lc.resolve(n)
	}, allocAt: lc.fr.entryAlloc, lc: lc}
}

func (lc *loopCtx) resolve(n string) (Val, bool) {
	u := lc.u
	fr := lc.fr
	if strings.HasSuffix(n, "0") {
		// entry value of a parameter: name0
		for i, p := range fr.fn.Params {
			if p.Name() == n[:len(n)-1] || lc.conParam(i) == n[:len(n)-1] {
				if v, ok := fr.env[p]; ok {
					return v, true
				}
			}
		}
	}
	if k, err := strconv.Atoi(strings.TrimPrefix(n, "iter")); err == nil && strings.HasPrefix(n, "iter") {
		// the current index of an enclosing range loop
		for _, l := range fr.loops.all {
			if l.ord == k && l.blocks[lc.lp.header] && l != lc.lp {
				for _, p := range phisOf(l.header) {
					if v, ok := fr.env[p]; ok && p.Comment == "rangeindex" {
						return Val{T: v.T, L: []*Term{u.c.Add(v.L[0], u.c.Int(1))}}, true
					}
				}
			}
		}
	}
	if n == "rangeindex" || n == "iter" {
		for _, p := range phisOf(lc.lp.header) {
			if p.Comment == "rangeindex" {
				v := lc.phi(p)
				if n == "iter" {
					v.L = []*Term{u.c.Add(v.L[0], u.c.Int(1))}
				}
				return v, true
			}
		}
		if n == "iter" {
			if it := lc.mapIter(); it != nil {
				_, h := u.iterCount(lc.st)
				return u.one(types.Typ[types.Int], u.c.Select(h, it.ref)), true
			}
			return Val{}, false
		}
	}
	for _, p := range phisOf(lc.lp.header) {
		if p.Comment == n {
			return lc.phi(p), true
		}
	}
	if v, ok := u.localVar(fr, lc.st, n, lc.lp.header.Idom()); ok {
		return v, true
	}
	for i, p := range fr.fn.Params {
		if p.Name() == n || lc.conParam(i) == n {
			if v, ok := fr.env[p]; ok {
				return v, true
			}
		}
	}
	for _, f := range fr.fn.FreeVars {
		if f.Name() == n {
			if v, ok := fr.env[f]; ok {
				if pt, ok := f.Type().Underlying().(*types.Pointer); ok {
					return u.load(lc.st, v, pt.Elem()), true
				}
				return v, true
			}
		}
	}
	return Val{}, false
}

// mapIter is the iteration over a map which the loop performs.
func (lc *loopCtx) mapIter() *mapIter {
	for _, in := range lc.lp.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it := lc.u.val(lc.fr, lc.st, nx.Iter).It; it != nil && it.mt != nil {
				return it
			}
		}
	}
	return nil
}

func (lc *loopCtx) conParam(i int) string {
	if lc.fr.con != nil && i < len(lc.fr.con.Params) {
		return lc.fr.con.Params[i]
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// localVar finds the value a local variable of the Go source has at the end of
// block from.
func (u *Unit) localVar(fr *Frame, st *State, n string, from *ssa.BasicBlock) (Val, bool) {
	// the latest definition or use (by debug information) before the block "from" ends
	var best ssa.Value
	isAddr := false
	for b := from; b != nil && best == nil; b = b.Idom() {
		for k := len(b.Instrs) - 1; k >= 0 && best == nil; k-- {
			switch in := b.Instrs[k].(type) {
			case *ssa.DebugRef:
				if in.Object() == nil || in.Object().Name() != n {
					continue
				}
				if _, ok := fr.env[in.X]; !ok {
					if _, isC := in.X.(*ssa.Const); !isC {
						continue
					}
				}
				best, isAddr = in.X, in.IsAddr
				if !isAddr {
					// a variable which lives in memory (captured by a closure, say):
					// the value at this use may be out of date
					for _, b2 := range b.Parent().Blocks {
						for _, i2 := range b2.Instrs {
							if a, ok := i2.(*ssa.Alloc); ok && a.Comment == n && a.Pos() == in.Object().Pos() {
								if _, ok := fr.env[a]; ok {
									best, isAddr = a, true
								}
							}
						}
					}
				}
			case *ssa.Phi:
				if in.Comment == n {
					if _, ok := fr.env[in]; ok {
						best, isAddr = in, false
					}
				}
			case *ssa.Alloc:
				if in.Comment == n {
					if _, ok := fr.env[in]; ok {
						best, isAddr = in, true
					}
				}
			}
		}
	}
	if best != nil {
		v := u.val(fr, st, best)
		if isAddr {
			if pt, ok := best.Type().Underlying().(*types.Pointer); ok {
				return u.load(st, v, pt.Elem()), true
			}
		}
		return v, true
	}
	return Val{}, false
}
