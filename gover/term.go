package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Sort is an SMT-LIB sort, as text.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real"
	SStr  Sort = "Str"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array ") }

// arrParts splits "(Array K V)".
func (s Sort) arrParts() (Sort, Sort) {
	in := string(s)[7 : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

// Term is a hash-consed SMT term.
type Term struct {
	id     int
	op     string // "const" (declared), "int", "real", "true", "false", "bound", or an SMT operator
	name   string
	args   []*Term
	sort   Sort
	val    *big.Int // for op "int"
	lo, hi *big.Int // known bounds for op "const" and selects
	bound  bool     // contains bound variables

	rlo, rhi *big.Int
	rdone    bool
}

// Ctx owns the terms of one verification unit.
type Ctx struct {
	substAny bool // substitute constants as well
	tab      map[string]*Term
	n        int
	fresh    map[string]int
	decls    []*Term // declared constants in order
	funs     []string
	funOK    map[string]bool

	nilTerm, tTrue, tFalse *Term

	agree   map[int]agreement // heap constants which agree with another heap on old references
	lower   map[int][]*Term   // terms which are at most this allocation counter
	bitMemo map[int]*big.Int
	old     map[int]*Term // references known to be old at this allocation counter
}

// agreement: the cells of references which are old at bound are those of base.
type agreement struct{ base, bound *Term }

// oldAt proves, by syntax alone, that r is a reference allocated when the
// allocation counter had the value a (or before).
func (c *Ctx) oldAt(r, a *Term, depth int) bool {
	if o, ok := c.old[r.id]; ok {
		r = o
	}
	l := newLin()
	if !l.add(r, big.NewInt(1)) {
		return false
	}
	ids := l.ids()
	if len(ids) != 1 || l.coef[ids[0]].Cmp(big.NewInt(1)) != 0 || l.k.Sign() < 0 {
		return false
	}
	if _, ok := c.lower[ids[0]]; !ok {
		return false
	}
	return c.allocLe(r, a, depth)
}

func (c *Ctx) allocLe(r, a *Term, depth int) bool {
	if d := c.addMul(a, r, -1); d != nil && d.isInt() {
		return d.val.Sign() >= 0
	}
	if depth == 0 {
		return false
	}
	base, k := splitConst(a)
	if base == nil {
		return false
	}
	for _, x := range c.lower[base.id] {
		if c.allocLe(r, c.Add(x, c.Big(k)), depth-1) {
			return true
		}
	}
	return false
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, funOK: map[string]bool{}, agree: map[int]agreement{}, lower: map[int][]*Term{}, old: map[int]*Term{}, bitMemo: map[int]*big.Int{}}
	c.tTrue = c.mk("true", "", SBool)
	c.tFalse = c.mk("false", "", SBool)
	return c
}

func (c *Ctx) mk(op, name string, s Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.n, op: op, name: name, args: append([]*Term(nil), args...), sort: s}
	c.n++
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	if op == "bound" {
		t.bound = true
	}
	c.tab[k] = t
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$':
			sb.WriteRune(r)
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// Fresh declares a new constant.
func (c *Ctx) Fresh(name string, s Sort) *Term {
	name = sanitize(name)
	c.fresh[name]++
	n := fmt.Sprintf("%s!%d", name, c.fresh[name])
	t := c.mk("const", n, s)
	c.decls = append(c.decls, t)
	return t
}

func (c *Ctx) FreshRange(name string, lo, hi *big.Int) *Term {
	t := c.Fresh(name, SInt)
	t.lo, t.hi = lo, hi
	return t
}

// Named declares (once) a constant with a fixed name.
func (c *Ctx) Named(name string, s Sort) *Term {
	name = sanitize(name)
	n := len(c.tab)
	t := c.mk("const", name, s)
	if len(c.tab) != n {
		c.decls = append(c.decls, t)
	}
	return t
}

func (c *Ctx) Bound(name string, s Sort) *Term {
	c.fresh["$b"+name]++
	return c.mk("bound", fmt.Sprintf("%s?%d", sanitize(name), c.fresh["$b"+name]), s)
}

func (c *Ctx) DeclareFun(name string, args []Sort, res Sort) {
	if c.funOK[name] {
		return
	}
	c.funOK[name] = true
	var as []string
	for _, a := range args {
		as = append(as, string(a))
	}
	c.funs = append(c.funs, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(as, " "), res))
}

func (c *Ctx) App(name string, res Sort, args ...*Term) *Term {
	var as []Sort
	for _, a := range args {
		as = append(as, a.sort)
	}
	c.DeclareFun(name, as, res)
	return c.mk("app:"+name, "", res, args...)
}

func (c *Ctx) Int(n int64) *Term { return c.Big(big.NewInt(n)) }
func (c *Ctx) Big(b *big.Int) *Term {
	t := c.mk("int", b.String(), SInt)
	if t.val == nil {
		t.val = new(big.Int).Set(b)
	}
	return t
}
func (c *Ctx) Real(r *big.Rat) *Term {
	return c.mk("real", r.RatString(), SReal)
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

func (t *Term) isInt() bool   { return t.op == "int" }
func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.tFalse
	case "false":
		return c.tTrue
	case "not":
		return a.args[0]
	}
	return c.mk("not", "", SBool, a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isTrue() || seen[a.id] {
			continue
		}
		if a.isFalse() {
			return a
		}
		if a.op == "and" {
			for _, b := range a.args {
				if !seen[b.id] {
					seen[b.id] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	if len(out) == 0 {
		return c.tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "", SBool, out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isFalse() || seen[a.id] {
			continue
		}
		if a.isTrue() {
			return a
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return c.tTrue
		}
	}
	if len(out) == 0 {
		return c.tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", "", SBool, out...)
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return c.tTrue
	}
	if b.isFalse() {
		return c.Not(a)
	}
	return c.mk("=>", "", SBool, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.sort != b.sort {
		if a.sort == SReal && b.sort == SInt {
			b = c.ToReal(b)
		} else if a.sort == SInt && b.sort == SReal {
			a = c.ToReal(a)
		} else {
			panic(fmt.Sprintf("Eq sort mismatch %s vs %s: %s / %s", a.sort, b.sort, a, b))
		}
	}
	if a.isInt() && b.isInt() {
		return c.tFalse
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.sort == SInt {
		al, ah := c.Rng(a)
		bl, bh := c.Rng(b)
		if ah != nil && bl != nil && ah.Cmp(bl) < 0 || bh != nil && al != nil && bh.Cmp(al) < 0 {
			return c.tFalse
		}
		// ite(c, k1, k2) == k
		if b.isInt() && a.op == "ite" && a.args[1].isInt() && a.args[2].isInt() {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if a.isInt() && b.op == "ite" && b.args[1].isInt() && b.args[2].isInt() {
			return c.Ite(b.args[0], c.Eq(b.args[1], a), c.Eq(b.args[2], a))
		}
		if d := c.addMul(a, b, -1); d != nil && d.isInt() {
			return c.Bool(d.val.Sign() == 0)
		}
		// x + k1 == x + k2
		ab, ak := splitConst(a)
		bb, bk := splitConst(b)
		if ab != nil && ab == bb && ak.Cmp(bk) != 0 {
			return c.tFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", SBool, a, b)
}

// splitConst writes t as base + k.
func splitConst(t *Term) (*Term, *big.Int) {
	if t.isInt() {
		return nil, t.val
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].isInt() {
		return t.args[0], t.args[1].val
	}
	return t, new(big.Int)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		if a.sort == SReal && b.sort == SInt {
			b = c.ToReal(b)
		} else if a.sort == SInt && b.sort == SReal {
			a = c.ToReal(a)
		} else {
			panic(fmt.Sprintf("Ite sort mismatch %s vs %s", a.sort, b.sort))
		}
	}
	if a.sort == SBool {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	return c.mk("ite", "", a.sort, cond, a, b)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return c.mk("+", "", SReal, c.ToReal(a), c.ToReal(b))
	}
	if a.isInt() && b.isInt() {
		return c.Big(new(big.Int).Add(a.val, b.val))
	}
	if r := c.joinMod(a, b); r != nil {
		return r
	}
	if r := c.addMul(a, b, 1); r != nil {
		return r
	}
	ab, ak := splitConst(a)
	bb, bk := splitConst(b)
	k := new(big.Int).Add(ak, bk)
	var base *Term
	switch {
	case ab == nil:
		base = bb
	case bb == nil:
		base = ab
	default:
		// x + (y - x) => y
		if bb.op == "-" && len(bb.args) == 2 && bb.args[1] == ab {
			base = bb.args[0]
			if k.Sign() == 0 {
				return base
			}
			return c.Add(base, c.Big(k))
		}
		if ab.op == "-" && len(ab.args) == 2 && ab.args[1] == bb {
			base = ab.args[0]
			if k.Sign() == 0 {
				return base
			}
			return c.Add(base, c.Big(k))
		}
		if ab.id > bb.id {
			ab, bb = bb, ab
		}
		base = c.mk("+", "", SInt, ab, bb)
	}
	if k.Sign() == 0 {
		return base
	}
	return c.mk("+", "", SInt, base, c.Big(k))
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.sort == SReal {
		return c.mk("-", "", SReal, a)
	}
	return c.Sub(c.Int(0), a)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return c.mk("-", "", SReal, c.ToReal(a), c.ToReal(b))
	}
	if a == b {
		return c.Int(0)
	}
	if r := c.addMul(a, b, -1); r != nil {
		return r
	}
	if b.isInt() {
		return c.Add(a, c.Big(new(big.Int).Neg(b.val)))
	}
	ab, ak := splitConst(a)
	bb, bk := splitConst(b)
	if ab != nil && ab == bb {
		return c.Big(new(big.Int).Sub(ak, bk))
	}
	if ab != nil && ab.op == "+" && len(ab.args) == 2 {
		if ab.args[0] == bb {
			return c.Add(ab.args[1], c.Big(new(big.Int).Sub(ak, bk)))
		}
		if ab.args[1] == bb {
			return c.Add(ab.args[0], c.Big(new(big.Int).Sub(ak, bk)))
		}
	}
	if bk.Sign() != 0 {
		return c.Add(c.Sub(a, bb), c.Big(new(big.Int).Neg(bk)))
	}
	if ab == nil || ak.Sign() == 0 {
		return c.mk("-", "", SInt, a, b)
	}
	return c.Add(c.mk("-", "", SInt, ab, b), c.Big(ak))
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return c.mk("*", "", SReal, c.ToReal(a), c.ToReal(b))
	}
	if a.isInt() && b.isInt() {
		return c.Big(new(big.Int).Mul(a.val, b.val))
	}
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		if a.val.Sign() == 0 {
			return a
		}
		if a.val.Cmp(big.NewInt(1)) == 0 {
			return b
		}
		if b.op == "+" || b.op == "-" {
			l := newLin()
			if l.add(b, a.val) {
				return c.linTerm(l)
			}
		}
		if b.op == "*" && b.args[0].isInt() {
			return c.Mul(c.Big(new(big.Int).Mul(a.val, b.args[0].val)), b.args[1])
		}
		if b.op == "+" && b.args[1].isInt() {
			return c.Add(c.Mul(a, b.args[0]), c.Mul(a, b.args[1]))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk("*", "", SInt, a, b)
}

// Div is SMT (floor for positive divisor) division by b.
func (c *Ctx) Div(a, b *Term) *Term {
	if b.isInt() && b.val.Sign() > 0 {
		if b.val.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.isInt() {
			q := new(big.Int)
			q.Div(a.val, b.val)
			return c.Big(q)
		}
		lo, hi := c.Rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.val) < 0 {
			return c.Int(0)
		}
		// (k*x) div k
		if a.op == "*" && a.args[0].isInt() {
			q, r := new(big.Int).DivMod(a.args[0].val, b.val, new(big.Int))
			if r.Sign() == 0 {
				return c.Mul(c.Big(q), a.args[1])
			}
		}
		if a.op == "div" && a.args[1].isInt() && a.args[1].val.Sign() > 0 {
			return c.Div(a.args[0], c.Big(new(big.Int).Mul(a.args[1].val, b.val)))
		}
		if k, ok := pow2(b.val); ok {
			if a.op == "*" && a.args[0].isInt() {
				if j, ok := pow2(a.args[0].val); ok && j < k {
					return c.Div(a.args[1], c.Big(new(big.Int).Lsh(big.NewInt(1), k-j)))
				}
			}
			if a.op == "+" && c.disjoint(a.args[0], a.args[1]) {
				return c.Add(c.Div(a.args[0], b), c.Div(a.args[1], b))
			}
		}
		if a.op == "ite" && (a.args[1].isInt() || a.args[2].isInt()) {
			return c.Ite(a.args[0], c.Div(a.args[1], b), c.Div(a.args[2], b))
		}
		// (x + y) div k where k | x : x/k + y div k
		if a.op == "+" {
			if q := c.exactDiv(a.args[0], b.val); q != nil {
				return c.Add(q, c.Div(a.args[1], b))
			}
			if q := c.exactDiv(a.args[1], b.val); q != nil {
				return c.Add(q, c.Div(a.args[0], b))
			}
		}
	}
	return c.mk("div", "", SInt, a, b)
}

// exactDiv returns a/k if a is syntactically a multiple of k.
func (c *Ctx) exactDiv(a *Term, k *big.Int) *Term {
	if a.isInt() {
		q, r := new(big.Int).DivMod(a.val, k, new(big.Int))
		if r.Sign() == 0 {
			return c.Big(q)
		}
		return nil
	}
	if a.op == "*" && a.args[0].isInt() {
		q, r := new(big.Int).DivMod(a.args[0].val, k, new(big.Int))
		if r.Sign() == 0 {
			return c.Mul(c.Big(q), a.args[1])
		}
	}
	if a.op == "+" {
		x := c.exactDiv(a.args[0], k)
		if x == nil {
			return nil
		}
		y := c.exactDiv(a.args[1], k)
		if y == nil {
			return nil
		}
		return c.Add(x, y)
	}
	return nil
}

func (c *Ctx) Mod(a, b *Term) *Term {
	if b.isInt() && b.val.Sign() > 0 {
		if a.isInt() {
			return c.Big(new(big.Int).Mod(a.val, b.val))
		}
		lo, hi := c.Rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.val) < 0 {
			return a
		}
		if c.exactDiv(a, b.val) != nil {
			return c.Int(0)
		}
		if k, ok := pow2(b.val); ok {
			if a.op == "*" && a.args[0].isInt() {
				if j := a.args[0].val.TrailingZeroBits(); j > 0 && j < k && a.args[0].val.Sign() > 0 {
					p := new(big.Int).Lsh(big.NewInt(1), j)
					x := c.Mul(c.Big(new(big.Int).Rsh(a.args[0].val, j)), a.args[1])
					return c.Mul(c.Big(p), c.Mod(x, c.Big(new(big.Int).Lsh(big.NewInt(1), k-j))))
				}
			}
			if a.op == "+" && c.disjoint(a.args[0], a.args[1]) {
				return c.Add(c.Mod(a.args[0], b), c.Mod(a.args[1], b))
			}
		}
		if a.op == "ite" && (a.args[1].isInt() || a.args[2].isInt()) {
			return c.Ite(a.args[0], c.Mod(a.args[1], b), c.Mod(a.args[2], b))
		}
		if a.op == "mod" && a.args[1].isInt() {
			if _, r := new(big.Int).DivMod(a.args[1].val, b.val, new(big.Int)); r.Sign() == 0 {
				return c.Mod(a.args[0], b)
			}
		}
		if a.op == "+" {
			if q := c.exactDiv(a.args[0], b.val); q != nil {
				return c.Mod(a.args[1], b)
			}
			if q := c.exactDiv(a.args[1], b.val); q != nil {
				return c.Mod(a.args[0], b)
			}
		}
	}
	return c.mk("mod", "", SInt, a, b)
}

// hints adds the trigger terms of the universal quantifiers of a goal to their
// bodies (as arguments of a predicate about which nothing is known), so that
// the solver has them after instantiating the quantifier with a new constant.
func (c *Ctx) hints(t *Term) *Term {
	switch t.op {
	case "and":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = c.hints(a)
		}
		return c.And(as...)
	case "=>":
		return c.mk("=>", "", SBool, t.args[0], c.hints(t.args[1]))
	case "forall":
		parts := strings.Split(t.name, "/")
		nv, _ := strconv.Atoi(parts[0])
		if len(parts) < 2 {
			return t
		}
		body := t.args[nv]
		var hs []*Term
		k := nv + 1
		var pats [][]*Term
		for _, p := range parts[1:] {
			n, _ := strconv.Atoi(p)
			pats = append(pats, t.args[k:k+n])
			for _, x := range t.args[k : k+n] {
				if x.sort == SInt || x.sort == SBool || x.sort == SReal {
					nm := "zz$hint" + string(x.sort)
					c.DeclareFun(nm, []Sort{x.sort}, SBool)
					hs = append(hs, c.App(nm, SBool, x))
				}
			}
			k += n
		}
		if len(hs) == 0 {
			return t
		}
		body = c.mk("=>", "", SBool, c.And(hs...), c.hints(body))
		return c.quant("forall", t.args[:nv], body, pats...)
	}
	return t
}

// joinMod recognises digits of one number:
// M*((Y div M) mod N) + (Y mod M) is Y mod (M*N), M*(Y div M) + (Y mod M) is Y.
func (c *Ctx) joinMod(a, b *Term) *Term {
	l := newLin()
	one := big.NewInt(1)
	if !(hasMod(a, 6) && hasMod(b, 6)) && !(hasMod(a, 6) && b.op != "int") && !(hasMod(b, 6) && a.op != "int") {
		return nil
	}
	if !l.add(a, one) || !l.add(b, one) {
		return nil
	}
	changed := false
again:
	for _, id := range l.ids() {
		t := l.atoms[id]
		if t.op != "mod" || !t.args[1].isInt() || t.args[1].val.Sign() <= 0 {
			continue
		}
		M := t.args[1].val
		d := c.Div(t.args[0], t.args[1])
		if d.isInt() {
			continue
		}
		want := new(big.Int).Mul(l.coef[id], M)
		for _, id2 := range l.ids() {
			t2 := l.atoms[id2]
			if id2 == id || l.coef[id2].Cmp(want) != 0 {
				continue
			}
			var r *Term
			if t2 == d {
				r = t.args[0]
			} else if t2.op == "mod" && t2.args[0] == d && t2.args[1].isInt() && t2.args[1].val.Sign() > 0 {
				r = c.Mod(t.args[0], c.Big(new(big.Int).Mul(M, t2.args[1].val)))
			}
			if r == nil {
				continue
			}
			k := l.coef[id]
			delete(l.coef, id)
			delete(l.atoms, id)
			delete(l.coef, id2)
			delete(l.atoms, id2)
			if !l.add(r, k) {
				return nil
			}
			changed = true
			goto again
		}
	}
	if !changed {
		return nil
	}
	return c.linTerm(l)
}

func hasMod(t *Term, depth int) bool {
	switch t.op {
	case "mod":
		return true
	case "+", "*":
		if depth > 0 {
			for _, a := range t.args {
				if hasMod(a, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// Sext reads the low bits of x as a signed number; x is in [0, 2^bits).
func (c *Ctx) Sext(x *Term, bits uint) *Term {
	h := new(big.Int).Lsh(big.NewInt(1), bits-1)
	m := new(big.Int).Lsh(h, 1)
	if x.op == "mod" && x.args[1].isInt() && x.args[1].val.Cmp(m) == 0 {
		lo, hi := c.Rng(x.args[0])
		if lo != nil && hi != nil && lo.Cmp(new(big.Int).Neg(h)) >= 0 && hi.Cmp(h) < 0 {
			return x.args[0]
		}
	}
	return c.Ite(c.Ge(x, c.Big(h)), c.Sub(x, c.Big(m)), x)
}

func (c *Ctx) ToReal(a *Term) *Term {
	if a.sort == SReal {
		return a
	}
	if a.isInt() {
		return c.Real(new(big.Rat).SetInt(a.val))
	}
	return c.mk("to_real", "", SReal, a)
}

func (c *Ctx) Le(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return c.mk("<=", "", SBool, c.ToReal(a), c.ToReal(b))
	}
	if a == b {
		return c.tTrue
	}
	al, ah := c.Rng(a)
	bl, bh := c.Rng(b)
	if ah != nil && bl != nil && ah.Cmp(bl) <= 0 {
		return c.tTrue
	}
	if al != nil && bh != nil && al.Cmp(bh) > 0 {
		return c.tFalse
	}
	if d := c.addMul(a, b, -1); d != nil && d.isInt() {
		return c.Bool(d.val.Sign() <= 0)
	}
	ab, ak := splitConst(a)
	bb, bk := splitConst(b)
	if ab != nil && ab == bb {
		return c.Bool(ak.Cmp(bk) <= 0)
	}
	return c.mk("<=", "", SBool, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	if a.sort == SReal || b.sort == SReal {
		return c.mk("<", "", SBool, c.ToReal(a), c.ToReal(b))
	}
	return c.Not(c.Le(b, a))
}
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) Select(a, i *Term) *Term {
	_, v := a.sort.arrParts()
	// read over write
	for n := 0; n < 200; n++ {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if c.distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	if ag, ok := c.agree[a.id]; ok && !i.bound && c.oldAt(i, ag.bound, 6) {
		return c.Select(ag.base, i)
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "constarr" || a.args[2].op == "constarr") {
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	}
	return c.mk("select", "", v, a, i)
}

func (c *Ctx) distinct(a, b *Term) bool {
	if a.sort != SInt {
		if a.sort == SStr && a.op == "const" && b.op == "const" && strings.HasPrefix(a.name, "str$") && strings.HasPrefix(b.name, "str$") {
			return a != b
		}
		return false
	}
	if c.Eq(a, b).isFalse() {
		return true
	}
	// references allocated at different times
	x, xk := splitConst(a)
	y, yk := splitConst(b)
	if x == nil || y == nil || x == y || a.bound || b.bound || xk.Sign() < 0 || yk.Sign() < 0 {
		return false
	}
	if _, ok := c.lower[x.id]; !ok {
		return false
	}
	if _, ok := c.lower[y.id]; !ok {
		return false
	}
	one := c.Int(1)
	return c.allocLe(c.Add(a, one), b, 6) || c.allocLe(c.Add(b, one), a, 6)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	// storing back what is already there
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	_, vs := a.sort.arrParts()
	if vs != v.sort {
		if vs == SReal && v.sort == SInt {
			v = c.ToReal(v)
		} else {
			panic(fmt.Sprintf("Store sort mismatch: array %s value %s", a.sort, v.sort))
		}
	}
	return c.mk("store", "", a.sort, a, i, v)
}

func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk("constarr", "", s, v)
}

// Forall quantifies body over vars; pats are optional patterns.
func (c *Ctx) Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return c.quant("forall", vars, body, pats...)
}
func (c *Ctx) Exists(vars []*Term, body *Term) *Term {
	return c.quant("exists", vars, body)
}

func (c *Ctx) quant(q string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	var ps [][]*Term
	for _, p := range pats {
		ok := true
		for _, t := range p {
			if !validPat(t) {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	pats = ps
	if q == "forall" && len(vars) == 1 && len(pats) > 0 {
		vars = append([]*Term{}, vars...)
		vars[0], body, pats = c.absIndex(vars[0], body, pats)
		if body.isTrue() || body.isFalse() {
			return body
		}
	}
	args := append([]*Term{}, vars...)
	args = append(args, body)
	sig := strconv.Itoa(len(vars))
	for _, p := range pats {
		sig += "/" + strconv.Itoa(len(p))
		args = append(args, p...)
	}
	t := c.mk(q, sig, SBool, args...)
	// recompute boundness: free bound variables other than vars
	t.bound = false
	fv := map[int]bool{}
	freeBound(body, fv, map[int]bool{})
	for _, v := range vars {
		delete(fv, v.id)
	}
	if len(fv) > 0 {
		t.bound = true
	}
	return t
}

func freeBound(t *Term, out map[int]bool, seen map[int]bool) {
	if !t.bound || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "bound" {
		out[t.id] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		nv := 0
		fmt.Sscanf(t.name, "%d", &nv)
		in := map[int]bool{}
		freeBound(t.args[nv], in, map[int]bool{})
		for _, v := range t.args[:nv] {
			delete(in, v.id)
		}
		for k := range in {
			out[k] = true
		}
		return
	}
	for _, a := range t.args {
		freeBound(a, out, seen)
	}
}

// Rng computes an interval for an Int term (nil = unbounded).
func (c *Ctx) Rng(t *Term) (lo, hi *big.Int) {
	if t.sort != SInt {
		return nil, nil
	}
	if t.rdone {
		return t.rlo, t.rhi
	}
	switch t.op {
	case "int":
		lo, hi = t.val, t.val
	case "ite":
		al, ah := c.Rng(t.args[1])
		bl, bh := c.Rng(t.args[2])
		if al != nil && bl != nil {
			lo = minB(al, bl)
		}
		if ah != nil && bh != nil {
			hi = maxB(ah, bh)
		}
	case "+":
		al, ah := c.Rng(t.args[0])
		bl, bh := c.Rng(t.args[1])
		if al != nil && bl != nil {
			lo = new(big.Int).Add(al, bl)
		}
		if ah != nil && bh != nil {
			hi = new(big.Int).Add(ah, bh)
		}
	case "-":
		al, ah := c.Rng(t.args[0])
		bl, bh := c.Rng(t.args[1])
		if al != nil && bh != nil {
			lo = new(big.Int).Sub(al, bh)
		}
		if ah != nil && bl != nil {
			hi = new(big.Int).Sub(ah, bl)
		}
	case "*":
		al, ah := c.Rng(t.args[0])
		bl, bh := c.Rng(t.args[1])
		if al != nil && ah != nil && bl != nil && bh != nil {
			for _, x := range []*big.Int{al, ah} {
				for _, y := range []*big.Int{bl, bh} {
					p := new(big.Int).Mul(x, y)
					if lo == nil || p.Cmp(lo) < 0 {
						lo = p
					}
					if hi == nil || p.Cmp(hi) > 0 {
						hi = p
					}
				}
			}
		} else if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
			lo = new(big.Int).Mul(al, bl)
		}
	case "div":
		if t.args[1].isInt() && t.args[1].val.Sign() > 0 {
			al, ah := c.Rng(t.args[0])
			if al != nil {
				lo = new(big.Int).Div(al, t.args[1].val)
			}
			if ah != nil {
				hi = new(big.Int).Div(ah, t.args[1].val)
			}
		} else {
			al, ah := c.Rng(t.args[0])
			bl, _ := c.Rng(t.args[1])
			if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() > 0 {
				lo = new(big.Int)
				hi = ah
			}
		}
	case "mod":
		if t.args[1].isInt() && t.args[1].val.Sign() > 0 {
			lo = new(big.Int)
			hi = new(big.Int).Sub(t.args[1].val, big.NewInt(1))
			al, ah := c.Rng(t.args[0])
			if al != nil && al.Sign() >= 0 && ah != nil && ah.Cmp(hi) < 0 {
				hi = ah
			}
		} else {
			_, bh := c.Rng(t.args[1])
			bl, _ := c.Rng(t.args[1])
			if bl != nil && bl.Sign() > 0 {
				lo = new(big.Int)
				if bh != nil {
					hi = new(big.Int).Sub(bh, big.NewInt(1))
				}
			}
		}
	default:
		lo, hi = t.lo, t.hi
		if strings.HasPrefix(t.op, "app:band") || strings.HasPrefix(t.op, "app:bor") || strings.HasPrefix(t.op, "app:bxor") {
			lo, hi = t.lo, t.hi
		}
	}
	t.rlo, t.rhi, t.rdone = lo, hi, true
	return lo, hi
}

// SetRange attaches type bounds to a select/app/const term.
func (t *Term) SetRange(lo, hi *big.Int) {
	if t.sort != SInt || t.bound && t.op == "bound" {
		return
	}
	switch t.op {
	case "int", "ite", "+", "-", "*", "div", "mod":
		return
	}
	if t.lo == nil || lo != nil && lo.Cmp(t.lo) > 0 {
		t.lo = lo
	}
	if t.hi == nil || hi != nil && hi.Cmp(t.hi) < 0 {
		t.hi = hi
	}
	t.rdone = false
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (t *Term) String() string {
	var sb strings.Builder
	n := 0
	printTerm(&sb, t, nil, &n)
	return sb.String()
}

// printTerm prints t; nodes found in names are printed by name.
func printTerm(sb *strings.Builder, t *Term, names map[int]string, budget *int) {
	if names == nil {
		*budget++
		if *budget > 400 {
			sb.WriteString("…")
			return
		}
	}
	if n, ok := names[t.id]; ok {
		sb.WriteString(n)
		return
	}
	switch t.op {
	case "const", "bound":
		sb.WriteString("|" + t.name + "|")
	case "int":
		if t.val.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.val).String() + ")")
		} else {
			sb.WriteString(t.name)
		}
	case "real":
		r, _ := new(big.Rat).SetString(t.name)
		neg := r.Sign() < 0
		if neg {
			r.Neg(r)
			sb.WriteString("(- ")
		}
		if r.IsInt() {
			sb.WriteString(r.Num().String() + ".0")
		} else {
			sb.WriteString("(/ " + r.Num().String() + ".0 " + r.Denom().String() + ".0)")
		}
		if neg {
			sb.WriteString(")")
		}
	case "true", "false":
		sb.WriteString(t.op)
	case "constarr":
		sb.WriteString("((as const " + string(t.sort) + ") ")
		printTerm(sb, t.args[0], names, budget)
		sb.WriteString(")")
	case "forall", "exists":
		parts := strings.Split(t.name, "/")
		nv, _ := strconv.Atoi(parts[0])
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.args[:nv] {
			sb.WriteString("(|" + v.name + "| " + string(v.sort) + ")")
		}
		sb.WriteString(") ")
		if len(parts) > 1 {
			sb.WriteString("(! ")
		}
		printTerm(sb, t.args[nv], names, budget)
		if len(parts) > 1 {
			k := nv + 1
			for _, p := range parts[1:] {
				m, _ := strconv.Atoi(p)
				sb.WriteString(" :pattern (")
				for j := 0; j < m; j++ {
					if j > 0 {
						sb.WriteByte(' ')
					}
					printTerm(sb, t.args[k], names, budget)
					k++
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		op := strings.TrimPrefix(t.op, "app:")
		if len(t.args) == 0 {
			sb.WriteString(op)
			return
		}
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			printTerm(sb, a, names, budget)
		}
		sb.WriteString(")")
	}
}
