package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (u *Unit) one(t types.Type, x *Term) Val { return Val{T: t, L: []*Term{x}} }

// wrap reduces a mathematical integer to machine type t exactly as Go does.
func (u *Unit) wrap(x *Term, t types.Type) *Term {
	c := u.c
	lo, hi, bits, signed := intRange(t)
	a, b := c.Rng(x)
	if a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return x
	}
	m := c.Big(new(big.Int).Lsh(big.NewInt(1), bits))
	var w *Term
	if signed {
		if a != nil && b != nil && a.Sign() >= 0 && b.Cmp(m.val) < 0 {
			return c.Sext(x, bits)
		}
		h := c.Big(new(big.Int).Lsh(big.NewInt(1), bits-1))
		w = c.Sub(c.Mod(c.Add(x, h), m), h)
	} else {
		w = c.Mod(x, m)
	}
	if bits == 64 || signed {
		return c.Ite(c.And(c.Le(c.Big(lo), x), c.Le(x, c.Big(hi))), x, w)
	}
	return w
}

// andMask computes x & m for a non-negative constant mask.
func (u *Unit) andMask(x *Term, m *big.Int) *Term {
	c := u.c
	res := c.Int(0)
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		p := c.Big(new(big.Int).Lsh(big.NewInt(1), uint(i)))
		w := c.Big(new(big.Int).Lsh(big.NewInt(1), uint(j-i)))
		res = c.Add(res, c.Mul(p, c.Mod(c.Div(x, p), w)))
		i = j
	}
	return res
}

// multipleOf returns the largest k<=64 with x syntactically divisible by 2^k.
func (u *Unit) multipleOf(x *Term) uint {
	switch x.op {
	case "int":
		if x.val.Sign() == 0 {
			return 64
		}
		return x.val.TrailingZeroBits()
	case "*":
		if x.args[0].isInt() {
			return x.args[0].val.TrailingZeroBits() + u.multipleOf(x.args[1])
		}
	case "+", "-":
		m := uint(64)
		for _, a := range x.args {
			if k := u.multipleOf(a); k < m {
				m = k
			}
		}
		return m
	case "ite":
		a, b := u.multipleOf(x.args[1]), u.multipleOf(x.args[2])
		if a < b {
			return a
		}
		return b
	case "mod":
		if x.args[1].isInt() {
			a, b := u.multipleOf(x.args[0]), x.args[1].val.TrailingZeroBits()
			if a < b {
				return a
			}
			return b
		}
	}
	return 0
}

func (u *Unit) bitOp(op token.Token, x, y *Term, t types.Type) *Term {
	c := u.c
	_, _, bits, signed := intRange(t)
	full := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
	mask := func(k *Term) *big.Int { return new(big.Int).And(k.val, full) }
	resign := func(r *Term) *Term { return r }
	if signed {
		h := new(big.Int).Lsh(big.NewInt(1), bits-1)
		resign = func(r *Term) *Term {
			if _, b := c.Rng(r); b != nil && b.Cmp(h) < 0 {
				return r
			}
			return c.Ite(c.Ge(r, c.Big(h)), c.Sub(r, c.Big(new(big.Int).Lsh(h, 1))), r)
		}
	}
	uns := func(a *Term) *Term {
		if !signed {
			return a
		}
		if l, _ := c.Rng(a); l != nil && l.Sign() >= 0 {
			return a
		}
		return c.Ite(c.Lt(a, c.Int(0)), c.Add(a, c.Big(new(big.Int).Lsh(big.NewInt(1), bits))), a)
	}
	if x.isInt() && !y.isInt() && op != token.AND_NOT {
		x, y = y, x
	}
	if y.isInt() {
		m := mask(y)
		switch op {
		case token.AND:
			return resign(u.andMask(x, m))
		case token.OR:
			if m.Sign() == 0 {
				return x
			}
			ux := uns(x)
			if b := c.bitsOf(ux); b != nil && new(big.Int).And(b, m).Sign() == 0 {
				return resign(c.Add(ux, c.Big(m)))
			}
			return resign(c.Sub(c.Add(ux, c.Big(m)), u.andMask(x, m)))
		case token.XOR:
			if m.Cmp(full) == 0 { // complement
				if signed {
					return c.Sub(c.Int(-1), x)
				}
				return c.Sub(c.Big(full), x)
			}
			ux := uns(x)
			return resign(c.Sub(c.Add(ux, c.Big(m)), c.Mul(c.Int(2), u.andMask(x, m))))
		case token.AND_NOT:
			return resign(c.Sub(uns(x), u.andMask(x, m)))
		}
	}
	if op == token.OR || op == token.XOR {
		if c.disjoint(x, y) {
			return c.Add(x, y)
		}
		// disjoint bits
		for i := 0; i < 2; i++ {
			lo, hi := c.Rng(y)
			if lo != nil && hi != nil && lo.Sign() >= 0 {
				if k := u.multipleOf(x); k > 0 && new(big.Int).Rsh(hi, k).Sign() == 0 {
					return c.Add(x, y)
				}
			}
			x, y = y, x
		}
		// ite with constants on one side: distribute
		if y.op == "ite" && y.args[1].isInt() && y.args[2].isInt() {
			return c.Ite(y.args[0], u.bitOp(op, x, y.args[1], t), u.bitOp(op, x, y.args[2], t))
		}
		if x.op == "ite" && x.args[1].isInt() && x.args[2].isInt() {
			return c.Ite(x.args[0], u.bitOp(op, y, x.args[1], t), u.bitOp(op, y, x.args[2], t))
		}
	}
	name := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxor", token.AND_NOT: "bandn"}[op] + fmt.Sprint(bits)
	if signed {
		name += "s"
	}
	r := c.App(name, SInt, x, y)
	if r.bound {
		return r
	}
	lo, hi, _, _ := intRange(t)
	r.SetRange(lo, hi)
	if u.once(r.id) {

		u.Assume(c.And(c.mk("<=", "", SBool, c.Big(lo), r), c.mk("<=", "", SBool, r, c.Big(hi))))
		nn := c.And(c.Ge(x, c.Int(0)), c.Ge(y, c.Int(0)))
		switch op {
		case token.AND:
			u.Assume(c.Implies(c.Ge(x, c.Int(0)), c.And(c.Ge(r, c.Int(0)), c.Le(r, x))))
			u.Assume(c.Implies(c.Ge(y, c.Int(0)), c.And(c.Ge(r, c.Int(0)), c.Le(r, y))))
		case token.OR:
			u.Assume(c.Implies(nn, c.And(c.Ge(r, x), c.Ge(r, y), c.Le(r, c.Add(x, y)))))
			u.Assume(c.Eq(c.Eq(r, c.Int(0)), c.And(c.Eq(x, c.Int(0)), c.Eq(y, c.Int(0)))))
		case token.XOR:
			u.Assume(c.Implies(nn, c.And(c.Ge(r, c.Int(0)), c.Le(r, c.Add(x, y)))))
		case token.AND_NOT:
			u.Assume(c.Implies(nn, c.And(c.Ge(r, c.Int(0)), c.Le(r, x))))
		}
	}
	return r
}

func (u *Unit) shift(op token.Token, x, n *Term, t types.Type) *Term {
	c := u.c
	one := func(k uint) *Term {
		p := c.Big(new(big.Int).Lsh(big.NewInt(1), k))
		if op == token.SHL {
			return u.wrap(c.Mul(x, p), t)
		}
		return c.Div(x, p)
	}
	_, _, bits, _ := intRange(t)
	if n.isInt() {
		k := n.val
		if k.Cmp(big.NewInt(int64(bits))) >= 0 {
			if op == token.SHL {
				return c.Int(0)
			}
			return c.Ite(c.Lt(x, c.Int(0)), c.Int(-1), c.Int(0))
		}
		return one(uint(k.Uint64()))
	}
	lo, hi := c.Rng(n)
	a, b := uint64(0), uint64(bits)
	if lo != nil && lo.Sign() > 0 && lo.IsUint64() && lo.Uint64() < b {
		a = lo.Uint64()
	}
	if hi != nil && hi.IsUint64() && hi.Uint64() < b {
		b = hi.Uint64()
	}
	var res *Term
	if op == token.SHL {
		res = c.Int(0)
	} else {
		res = c.Ite(c.Lt(x, c.Int(0)), c.Int(-1), c.Int(0))
	}
	if b < uint64(bits) {
		res = one(uint(b))
		if b == 0 {
			return res
		}
		b--
	} else {
		b = uint64(bits) - 1
	}
	for k := int64(b); k >= int64(a); k-- {
		res = c.Ite(c.Eq(n, c.Int(k)), one(uint(k)), res)
	}
	return res
}

func (u *Unit) binop(st *State, x *ssa.BinOp, a, b Val) Val {
	c := u.c
	t := x.X.Type()
	rt := x.Type()
	switch x.Op {
	case token.EQL:
		return u.one(rt, u.valEq(st, a, b, t))
	case token.NEQ:
		return u.one(rt, c.Not(u.valEq(st, a, b, t)))
	}
	if isString(t) {
		switch x.Op {
		case token.ADD:
			r := u.newVal(st, "strcat", rt)
			u.Assume(c.Eq(u.slen(r.L[0]), c.Add(u.slen(a.L[0]), u.slen(b.L[0]))))
			i := c.Bound("i", SInt)
			u.Assume(c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, u.slen(a.L[0]))), c.Eq(u.sat(r.L[0], i), u.sat(a.L[0], i))), []*Term{u.sat(r.L[0], i)}))
			u.Assume(c.Forall([]*Term{i}, c.Implies(c.And(c.Le(u.slen(a.L[0]), i), c.Lt(i, u.slen(r.L[0]))), c.Eq(u.sat(r.L[0], i), u.sat(b.L[0], c.Sub(i, u.slen(a.L[0]))))), []*Term{u.sat(r.L[0], i)}))
			return r
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt := func(p, q *Term) *Term { return c.App("strlt", SBool, p, q) }
			switch x.Op {
			case token.LSS:
				return u.one(rt, lt(a.L[0], b.L[0]))
			case token.GTR:
				return u.one(rt, lt(b.L[0], a.L[0]))
			case token.LEQ:
				return u.one(rt, c.Not(lt(b.L[0], a.L[0])))
			default:
				return u.one(rt, c.Not(lt(a.L[0], b.L[0])))
			}
		}
	}
	if len(a.L) != 1 || len(b.L) != 1 {
		u.unsupported("binop %s on %s", x.Op, t)
	}
	p, q := a.L[0], b.L[0]
	switch x.Op {
	case token.LSS:
		return u.one(rt, c.Lt(p, q))
	case token.LEQ:
		return u.one(rt, c.Le(p, q))
	case token.GTR:
		return u.one(rt, c.Lt(q, p))
	case token.GEQ:
		return u.one(rt, c.Le(q, p))
	}
	if isFloat(t) {
		u.trusted["float64 arithmetic treated as exact real arithmetic"] = true
		switch x.Op {
		case token.ADD:
			return u.one(rt, c.Add(p, q))
		case token.SUB:
			return u.one(rt, c.Sub(p, q))
		case token.MUL:
			return u.one(rt, c.Mul(p, q))
		case token.QUO:
			r := c.Fresh("fdiv", SReal)
			u.Assume(c.Implies(c.Not(c.Eq(q, c.Real(new(big.Rat)))), c.Eq(r, c.mk("/", "", SReal, p, q))))
			return u.one(rt, r)
		}
	}
	if !isInteger(rt) {
		u.unsupported("binop %s on %s", x.Op, t)
	}
	switch x.Op {
	case token.ADD:
		return u.one(rt, u.wrap(c.Add(p, q), rt))
	case token.SUB:
		return u.one(rt, u.wrap(c.Sub(p, q), rt))
	case token.MUL:
		return u.one(rt, u.wrap(c.Mul(p, q), rt))
	case token.QUO, token.REM:
		if !(q.isInt() && q.val.Sign() != 0) {
			u.Assert(st, "div", "divisor nonzero", c.Not(c.Eq(q, c.Int(0))))
		}
		quo, rem := u.goDiv(p, q)
		if x.Op == token.QUO {
			return u.one(rt, u.wrap(quo, rt))
		}
		return u.one(rt, rem)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return u.one(rt, u.bitOp(x.Op, p, q, rt))
	case token.SHL, token.SHR:
		if _, _, _, s := intRange(x.Y.Type()); s && !q.isInt() {
			u.Assert(st, "shift", "shift count non-negative", c.Ge(q, c.Int(0)))
		}
		return u.one(rt, u.shift(x.Op, p, q, rt))
	}
	u.unsupported("binop %s", x.Op)
	return Val{}
}

// goDiv is Go's truncated division and remainder.
func (u *Unit) goDiv(p, q *Term) (*Term, *Term) {
	c := u.c
	lo, _ := c.Rng(p)
	qlo, _ := c.Rng(q)
	if lo != nil && lo.Sign() >= 0 && qlo != nil && qlo.Sign() >= 0 {
		return c.Div(p, q), c.Mod(p, q)
	}
	if q.isInt() && q.val.Sign() > 0 {
		quo := c.Ite(c.Ge(p, c.Int(0)), c.Div(p, q), c.Neg(c.Div(c.Neg(p), q)))
		return quo, c.Sub(p, c.Mul(q, quo))
	}
	abs := func(x *Term) *Term { return c.Ite(c.Ge(x, c.Int(0)), x, c.Neg(x)) }
	d := c.Div(abs(p), abs(q))
	quo := c.Ite(c.Eq(c.Ge(p, c.Int(0)), c.Ge(q, c.Int(0))), d, c.Neg(d))
	return quo, c.Sub(p, c.Mul(q, quo))
}

func (u *Unit) slen(s *Term) *Term {
	if l, ok := strLit(s); ok {
		return u.c.Int(int64(len(l)))
	}
	t := u.c.App("slen", SInt, s)
	t.SetRange(new(big.Int), maxLen)
	if !t.bound && u.once(t.id) {

		u.Assume(u.c.And(u.c.mk("<=", "", SBool, u.c.Int(0), t), u.c.mk("<=", "", SBool, t, u.c.Big(maxLen))))
	}
	return t
}

func (u *Unit) sat(s, i *Term) *Term {
	if l, ok := strLit(s); ok && i.isInt() && i.val.IsInt64() {
		if k := i.val.Int64(); k >= 0 && k < int64(len(l)) {
			return u.c.Int(int64(l[k]))
		}
	}
	t := u.c.App("sat", SInt, s, i)
	t.SetRange(new(big.Int), big.NewInt(255))
	if !t.bound && u.once(t.id) {

		u.Assume(u.c.And(u.c.mk("<=", "", SBool, u.c.Int(0), t), u.c.mk("<=", "", SBool, t, u.c.Int(255))))
	}
	return t
}

// strFacts axiomatises a literal.
func (u *Unit) strFacts(s *Term) {
	l, ok := strLit(s)
	if !ok || !u.once(-s.id-1) {
		return
	}
	c := u.c
	u.Assume(c.Eq(c.App("slen", SInt, s), c.Int(int64(len(l)))))
	for i := 0; i < len(l) && i < 64; i++ {
		u.Assume(c.Eq(c.App("sat", SInt, s, c.Int(int64(i))), c.Int(int64(l[i]))))
	}
}

// valEq is Go's == on values of static type t.
func (u *Unit) valEq(st *State, a, b Val, t types.Type) *Term {
	c := u.c
	switch t.Underlying().(type) {
	case *types.Basic:
		if isString(t) {
			return u.strEq(a.L[0], b.L[0])
		}
		if len(a.L) == 1 {
			return c.Eq(a.L[0], b.L[0])
		}
	case *types.Interface:
		if len(a.L) == 2 && len(b.L) == 2 {
			if b.L[0].isInt() && b.L[0].val.Sign() == 0 {
				return c.Eq(a.L[0], c.Int(0))
			}
			if a.L[0].isInt() && a.L[0].val.Sign() == 0 {
				return c.Eq(b.L[0], c.Int(0))
			}
			return c.And(c.Eq(a.L[0], b.L[0]), c.Or(c.Eq(a.L[0], c.Int(0)), c.Eq(a.L[1], b.L[1])))
		}
		u.unsupported("interface comparison with concrete value")
	case *types.Slice:
		// only comparison with nil is legal
		if b.L[0].isInt() && b.L[0].val.Sign() == 0 {
			return c.Eq(a.L[0], c.Int(0))
		}
		return c.Eq(b.L[0], c.Int(0))
	case *types.Pointer:
		if a.A != nil || b.A != nil {
			x, y := a, b
			if x.A == nil {
				x, y = y, x
			}
			if y.A == nil && y.L[0].isInt() && y.L[0].val.Sign() == 0 {
				return c.tFalse
			}
			return c.Eq(a.L[0], b.L[0])
		}
	}
	var eqs []*Term
	ls := leaves(t)
	for i := range a.L {
		l := ls[i]
		if l.Arr > 0 {
			n := u.arrLenFor(t, l.Path)
			if n < 0 || n > 64 || l.Arr > 1 {
				u.unsupported("array comparison")
			}
			for k := int64(0); k < n; k++ {
				eqs = append(eqs, c.Eq(c.Select(a.L[i], c.Int(k)), c.Select(b.L[i], c.Int(k))))
			}
			continue
		}
		if l.Sort == SStr {
			eqs = append(eqs, u.strEq(a.L[i], b.L[i]))
			continue
		}
		eqs = append(eqs, c.Eq(a.L[i], b.L[i]))
	}
	return c.And(eqs...)
}

func (u *Unit) arrLenFor(t types.Type, path string) int64 {
	pre, _, ok := splitArr(path)
	if !ok {
		return -1
	}
	if pre == "" {
		return t.Underlying().(*types.Array).Len()
	}
	for pre != "" {
		p := pre[1:]
		name := p
		rest := ""
		for i := 0; i < len(p); i++ {
			if p[i] == '.' {
				name, rest = p[:i], p[i:]
				break
			}
		}
		s := t.Underlying().(*types.Struct)
		for j := 0; j < s.NumFields(); j++ {
			if fieldName(s, j) == name {
				t = s.Field(j).Type()
			}
		}
		pre = rest
	}
	return t.Underlying().(*types.Array).Len()
}

func (u *Unit) strEq(a, b *Term) *Term {
	c := u.c
	if a == b {
		return c.tTrue
	}
	la, oka := strLit(a)
	lb, okb := strLit(b)
	if oka && okb {
		return c.Bool(la == lb)
	}
	if oka {
		a, b, lb, okb = b, a, la, true
	}
	if okb {
		u.strFacts(b)
		if a.bound {
			return c.Eq(a, b)
		}
		// exact: equal iff same length and bytes; tie to identity
		eqs := []*Term{c.Eq(u.slen(a), c.Int(int64(len(lb))))}
		for i := 0; i < len(lb) && len(lb) <= 64; i++ {
			eqs = append(eqs, c.Eq(u.sat(a, c.Int(int64(i))), c.Int(int64(lb[i]))))
		}
		e := c.Eq(a, b)
		if len(lb) <= 64 {
			f := c.mk("=", "", SBool, e, c.And(eqs...))
			if u.once(f.id) {

				u.Assume(f)
			}
		}
		return e
	}
	e := c.Eq(a, b)
	if !e.bound && e.op == "=" && u.once(e.id) {

		// extensionality witness
		w := c.Fresh("sdiff", SInt)
		u.Assume(c.Or(e, c.Not(c.Eq(u.slen(a), u.slen(b))),
			c.And(c.Le(c.Int(0), w), c.Lt(w, u.slen(a)), c.Not(c.Eq(u.sat(a, w), u.sat(b, w))))))
	}
	return e
}

func (u *Unit) nilCheck(st *State, p Val, what string) {
	if p.A != nil {
		if p.A.Kind == 'O' && p.A.Ref != nil && p.A.Path == "" {
			u.Assert(st, "nil", what, u.c.Not(u.c.Eq(p.A.Ref, u.c.Int(0))))
		}
		return
	}
	u.Assert(st, "nil", what, u.c.Not(u.c.Eq(p.L[0], u.c.Int(0))))
}

func (u *Unit) convert(st *State, x Val, from, to types.Type) Val {
	c := u.c
	switch {
	case isInteger(from) && isInteger(to):
		return u.one(to, u.wrap(x.L[0], to))
	case isInteger(from) && isFloat(to):
		u.trusted["float64 arithmetic treated as exact real arithmetic"] = true
		return u.one(to, c.ToReal(x.L[0]))
	case isFloat(from) && isFloat(to):
		return u.one(to, x.L[0])
	case isFloat(from) && isInteger(to):
		u.trusted["float64 arithmetic treated as exact real arithmetic"] = true
		return u.one(to, u.wrap(u.truncReal(x.L[0]), to))
	case isString(to) && isString(from):
		x.T = to
		return x
	case isString(to) && isInteger(from):
		r := u.newVal(st, "runestr", to)
		u.Assume(c.And(c.Ge(u.slen(r.L[0]), c.Int(1)), c.Le(u.slen(r.L[0]), c.Int(4))))
		return r
	case isString(to): // []byte or []rune -> string
		et := from.Underlying().(*types.Slice).Elem()
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return u.bytesToString(st, x, et, to)
		}
		r := u.newVal(st, "runesstr", to)
		return r
	case isString(from): // string -> []byte or []rune
		sl := to.Underlying().(*types.Slice)
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			ref := u.newRef(st)
			arr := c.Fresh("sbytes", arrSort(SInt, SInt))
			i := c.Bound("i", SInt)
			u.Assume(c.Forall([]*Term{i}, c.Eq(c.Select(arr, i), u.sat(x.L[0], i)), []*Term{c.Select(arr, i)}))
			key := u.keyOf('E', typeKey(sl.Elem()), leaves(sl.Elem())[0])
			u.heapSet(st, key, c.Store(u.heapGet(st, key, arrSort(SInt, arrSort(SInt, SInt))), ref, arr), ref)
			n := u.slen(x.L[0])
			return Val{T: to, L: []*Term{ref, c.Int(0), n, n}}
		}
		ref := u.newRef(st)
		n := c.FreshRange("nrunes", new(big.Int), maxLen)
		u.Assume(c.And(c.Ge(n, c.Int(0)), c.Le(n, u.slen(x.L[0]))))
		u.Assume(c.Implies(c.Gt(u.slen(x.L[0]), c.Int(0)), c.Gt(n, c.Int(0))))
		return Val{T: to, L: []*Term{ref, c.Int(0), n, n}}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		if _, ok := from.Underlying().(*types.Pointer); ok {
			x.T = to
			return x
		}
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		if _, ok := from.Underlying().(*types.Slice); ok {
			x.T = to
			return x
		}
	}
	u.unsupported("conversion %s -> %s", from, to)
	return Val{}
}

func (u *Unit) truncReal(r *Term) *Term {
	c := u.c
	if r.op == "to_real" {
		return r.args[0]
	}
	fl := c.mk("to_int", "", SInt, r)
	ng := c.Neg(c.mk("to_int", "", SInt, c.mk("-", "", SReal, r)))
	return c.Ite(c.mk("<=", "", SBool, c.Real(new(big.Rat)), r), fl, ng)
}

func (u *Unit) bytesToString(st *State, x Val, et types.Type, to types.Type) Val {
	c := u.c
	r := u.newVal(st, "bytestr", to)
	u.Assume(c.Eq(u.slen(r.L[0]), x.L[2]))
	key := u.keyOf('E', typeKey(et), leaves(et)[0])
	arr := c.Select(u.heapGet(st, key, arrSort(SInt, arrSort(SInt, SInt))), x.L[0])
	i := c.Bound("i", SInt)
	u.Assume(c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, x.L[2])), c.Eq(u.sat(r.L[0], i), c.Select(arr, c.Add(x.L[1], i)))), []*Term{u.sat(r.L[0], i)}))
	if x.L[2].isInt() && x.L[2].val.IsInt64() {
		for k := int64(0); k < x.L[2].val.Int64() && k < 16; k++ {
			u.Assume(c.Eq(u.sat(r.L[0], c.Int(k)), c.Select(arr, c.Add(x.L[1], c.Int(k)))))
		}
	}
	return r
}

// fieldAddr computes &p.f.
func (u *Unit) fieldAddr(st *State, p Val, stt types.Type, i int, rt types.Type) Val {
	s := stt.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	a := *u.ptrAddr(st, p)
	a.Path += "." + fieldName(s, i)
	a.T = ft
	if _, ok := ft.Underlying().(*types.Array); ok {
		switch a.Kind {
		case 'O':
			return Val{T: rt, L: []*Term{u.emb(a.Ref, a.Path)}}
		case 'G':
			return Val{T: rt, L: []*Term{u.globalRef(a.G + a.Path)}}
		}
	}
	var ref *Term
	switch a.Kind {
	case 'O':
		ref = u.emb(a.Ref, a.Path)
	case 'E':
		ref = u.c.App("eaddr_"+fmt.Sprint(u.P.eaddrID(typeKey(a.RT)+a.Path)), SInt, a.Ref, a.Idx)
	default:
		ref = u.globalRef(a.G + a.Path)
	}
	return Val{T: rt, L: []*Term{ref}, A: &a}
}

func (u *Unit) indexAddr(st *State, base Val, bt types.Type, idx *Term, rt types.Type, txt string) Val {
	c := u.c
	switch b := bt.Underlying().(type) {
	case *types.Slice:
		u.Assert(st, "bounds", txt, c.And(c.Le(c.Int(0), idx), c.Lt(idx, base.L[2])))
		a := u.elemAddr(b.Elem(), base.L[0], c.Add(base.L[1], idx))
		return Val{T: rt, L: []*Term{c.App("eaddr_"+fmt.Sprint(u.P.eaddrID(typeKey(b.Elem()))), SInt, a.Ref, a.Idx)}, A: a}
	case *types.Pointer:
		at := b.Elem().Underlying().(*types.Array)
		u.Assert(st, "bounds", txt, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(at.Len()))))
		if base.A != nil {
			a := *base.A
			a.Path += "[]"
			a.AIdx = append(append([]*Term(nil), a.AIdx...), idx)
			a.T = at.Elem()
			return Val{T: rt, L: []*Term{c.Fresh("iaddr", SInt)}, A: &a}
		}
		u.Assert(st, "nil", txt, c.Not(c.Eq(base.L[0], c.Int(0))))
		a := u.elemAddr(at.Elem(), base.L[0], idx)
		return Val{T: rt, L: []*Term{c.App("eaddr_"+fmt.Sprint(u.P.eaddrID(typeKey(at.Elem()))), SInt, a.Ref, a.Idx)}, A: a}
	}
	u.unsupported("IndexAddr on %s", bt)
	return Val{}
}

func (u *Unit) sliceOp(fr *Frame, st *State, x *ssa.Slice) Val {
	c := u.c
	base := u.val(fr, st, x.X)
	var lo, hi, max *Term
	if x.Low != nil {
		lo = u.val(fr, st, x.Low).L[0]
	} else {
		lo = c.Int(0)
	}
	if x.High != nil {
		hi = u.val(fr, st, x.High).L[0]
	}
	if x.Max != nil {
		max = u.val(fr, st, x.Max).L[0]
	}
	txt := u.P.srcText(x)
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := u.slen(base.L[0])
		if hi == nil {
			hi = n
		}
		u.Assert(st, "slice", txt, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)))
		if lo.isInt() && lo.val.Sign() == 0 && hi == n {
			return base
		}
		r := u.newVal(st, "substr", x.Type())
		u.Assume(c.Implies(st.reach, c.Eq(u.slen(r.L[0]), c.Sub(hi, lo))))
		i := c.Bound("i", SInt)
		u.Assume(c.Implies(st.reach, c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, c.Sub(hi, lo))), c.Eq(u.sat(r.L[0], i), u.sat(base.L[0], c.Add(lo, i)))), []*Term{u.sat(r.L[0], i)})))
		return r
	case *types.Slice:
		if hi == nil {
			hi = base.L[2]
		}
		cp := base.L[3]
		lim := cp
		if max != nil {
			u.Assert(st, "slice", txt+" max", c.Le(max, cp))
			lim = max
		}
		u.Assert(st, "slice", txt, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, lim)))
		return Val{T: x.Type(), L: []*Term{base.L[0], c.Add(base.L[1], lo), c.Sub(hi, lo), c.Sub(lim, lo)}}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		if base.A != nil {
			u.unsupported("slicing an array nested in a slice element")
		}
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		lim := n
		if max != nil {
			lim = max
			u.Assert(st, "slice", txt+" max", c.Le(max, n))
		}
		u.Assert(st, "slice", txt, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, lim)))
		return Val{T: x.Type(), L: []*Term{base.L[0], lo, c.Sub(hi, lo), c.Sub(lim, lo)}}
	}
	u.unsupported("slice of %s", x.X.Type())
	return Val{}
}

// execInstr executes one non-terminator instruction; false stops the block.
func (u *Unit) execInstr(fr *Frame, st *State, ins ssa.Instruction) bool {
	c := u.c
	switch x := ins.(type) {
	case *ssa.Alloc:
		fr.env[x] = u.allocObj(st, x.Type().(*types.Pointer).Elem())
		v := fr.env[x]
		v.T = x.Type()
		fr.env[x] = v
	case *ssa.BinOp:
		fr.env[x] = u.binop(st, x, u.val(fr, st, x.X), u.val(fr, st, x.Y))
	case *ssa.UnOp:
		return u.unop(fr, st, x)
	case *ssa.ChangeType:
		v := u.val(fr, st, x.X)
		v.T = x.Type()
		fr.env[x] = v
	case *ssa.Convert:
		fr.env[x] = u.convert(st, u.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		u.unsupported("generic conversion")
	case *ssa.ChangeInterface:
		v := u.val(fr, st, x.X)
		v.T = x.Type()
		fr.env[x] = v
	case *ssa.MakeInterface:
		fr.env[x] = u.makeIface(st, u.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		fr.env[x] = u.typeAssert(fr, st, x)
	case *ssa.Extract:
		v := u.val(fr, st, x.Tuple)
		tt := x.Tuple.Type().(*types.Tuple)
		off := 0
		for i := 0; i < x.Index; i++ {
			off += len(leaves(tt.At(i).Type()))
		}
		n := len(leaves(tt.At(x.Index).Type()))
		r := Val{T: x.Type(), L: v.L[off : off+n]}
		if v.Bnd != nil && x.Index < len(v.Bnd) && v.Bnd[x.Index].T != nil {
			w := v.Bnd[x.Index]
			r.A, r.Fn, r.Bnd, r.Dyn, r.Blt = w.A, w.Fn, w.Bnd, w.Dyn, w.Blt
		}
		fr.env[x] = r
	case *ssa.Field:
		v := u.val(fr, st, x.X)
		s := x.X.Type().Underlying().(*types.Struct)
		off, n := fieldOff(s, x.Field)
		r := Val{T: x.Type(), L: v.L[off : off+n]}
		fr.env[x] = r
	case *ssa.FieldAddr:
		p := u.val(fr, st, x.X)
		u.nilCheck(st, p, u.P.srcText(x))
		fr.env[x] = u.fieldAddr(st, p, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field, x.Type())
	case *ssa.IndexAddr:
		fr.env[x] = u.indexAddr(st, u.val(fr, st, x.X), x.X.Type(), u.val(fr, st, x.Index).L[0], x.Type(), u.P.srcText(x))
	case *ssa.Index:
		v := u.val(fr, st, x.X)
		i := u.val(fr, st, x.Index).L[0]
		if isString(x.X.Type()) {
			u.Assert(st, "bounds", u.P.srcText(x), c.And(c.Le(c.Int(0), i), c.Lt(i, u.slen(v.L[0]))))
			fr.env[x] = u.one(x.Type(), u.sat(v.L[0], i))
			break
		}
		at, ok := x.X.Type().Underlying().(*types.Array)
		if !ok {
			u.unsupported("Index on %s", x.X.Type())
		}
		u.Assert(st, "bounds", u.P.srcText(x), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(at.Len()))))
		r := Val{T: x.Type()}
		for k, l := range leaves(at.Elem()) {
			t := c.Select(v.L[k], i)
			u.leafFacts(st, l, t)
			r.L = append(r.L, t)
		}
		fr.env[x] = r
	case *ssa.Slice:
		fr.env[x] = u.sliceOp(fr, st, x)
	case *ssa.Store:
		p := u.val(fr, st, x.Addr)
		u.nilCheck(st, p, u.P.srcText(x))
		u.store(st, p, u.val(fr, st, x.Val))
	case *ssa.MakeSlice:
		n := u.val(fr, st, x.Len).L[0]
		cp := u.val(fr, st, x.Cap).L[0]
		u.Assert(st, "make", u.P.srcText(x), c.And(c.Le(c.Int(0), n), c.Le(n, cp), c.Le(cp, c.Big(maxLen))))
		u.allocCheck(st, x, cp)
		ref := u.newRef(st)
		u.initBlock(st, x.Type().Underlying().(*types.Slice).Elem(), ref)
		fr.env[x] = Val{T: x.Type(), L: []*Term{ref, c.Int(0), n, cp}}
	case *ssa.MakeMap:
		fr.env[x] = u.makeMap(st, x.Type())
	case *ssa.MapUpdate:
		m := u.val(fr, st, x.Map)
		u.Assert(st, "nil", "map write "+u.P.srcText(x), c.Not(c.Eq(m.L[0], c.Int(0))))
		u.mapSet(st, m, u.val(fr, st, x.Key), u.val(fr, st, x.Value))
	case *ssa.Lookup:
		v := u.val(fr, st, x.X)
		if isString(x.X.Type()) {
			i := u.val(fr, st, x.Index).L[0]
			u.Assert(st, "bounds", u.P.srcText(x), c.And(c.Le(c.Int(0), i), c.Lt(i, u.slen(v.L[0]))))
			fr.env[x] = u.one(x.Type(), u.sat(v.L[0], i))
			break
		}
		mk := u.val(fr, st, x.Index)
		ok, val := u.mapGet(st, v, mk)
		if len(mk.L) == 1 {
			u.constMapFacts(fr, st, x, mk.L[0], ok, val)
		}
		if x.CommaOk {
			val.L = append(append([]*Term(nil), val.L...), ok)
			val.T = x.Type()
		}
		fr.env[x] = val
	case *ssa.Range:
		v := u.val(fr, st, x.X)
		it := &mapIter{m: v}
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			it.mt = mt
			it.dom = u.mapDom(st, v)
			it.ref = u.newRef(st)
			k, h := u.iterCount(st)
			u.heapSet(st, k, c.Store(h, it.ref, c.Int(0)), it.ref)
			if u.usesVisited() {
				k, h, ds := u.iterDone(st, it)
				u.heapSet(st, k, c.Store(h, it.ref, c.ConstArr(ds, c.tFalse)), it.ref)
			}
		} else {
			it.str = true
		}
		fr.env[x] = Val{T: x.Type(), It: it}
	case *ssa.Next:
		fr.env[x] = u.next(fr, st, x)
	case *ssa.MakeClosure:
		var b []Val
		for _, y := range x.Bindings {
			b = append(b, u.val(fr, st, y))
		}
		f := x.Fn.(*ssa.Function)
		fr.env[x] = Val{T: x.Type(), L: []*Term{c.Int(u.P.funcID(f))}, Fn: f, Bnd: b}
	case *ssa.Call:
		v, ok := u.call(fr, st, &x.Call, x)
		if !ok {
			return false
		}
		fr.env[x] = v
	case *ssa.Defer:
		fr.defers = append(fr.defers, x)
		u.unsupported("defer")
	case *ssa.RunDefers:
		// no supported defers
	case *ssa.Go:
		u.unsupported("go statement")
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		u.unsupported("channel operation")
	default:
		u.unsupported("instruction %T", ins)
	}
	return true
}

func (u *Unit) unop(fr *Frame, st *State, x *ssa.UnOp) bool {
	c := u.c
	v := u.val(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			if r, ok := u.globalConst(st, g); ok {
				fr.env[x] = r
				return true
			}
		}
		u.nilCheck(st, v, "*"+u.P.srcText(x))
		fr.env[x] = u.load(st, v, x.Type())
		r := fr.env[x]
		r.T = x.Type()
		fr.env[x] = r
	case token.NOT:
		fr.env[x] = u.one(x.Type(), c.Not(v.L[0]))
	case token.SUB:
		if isFloat(x.Type()) {
			fr.env[x] = u.one(x.Type(), c.Neg(v.L[0]))
		} else {
			fr.env[x] = u.one(x.Type(), u.wrap(c.Neg(v.L[0]), x.Type()))
		}
	case token.XOR:
		_, hi, _, signed := intRange(x.Type())
		if signed {
			fr.env[x] = u.one(x.Type(), c.Sub(c.Int(-1), v.L[0]))
		} else {
			fr.env[x] = u.one(x.Type(), c.Sub(c.Big(hi), v.L[0]))
		}
	case token.ARROW:
		u.unsupported("channel receive")
	default:
		u.unsupported("unop %s", x.Op)
	}
	return true
}

func (u *Unit) makeIface(st *State, v Val, from, to types.Type) Val {
	c := u.c
	if _, ok := from.Underlying().(*types.Interface); ok {
		v.T = to
		return v
	}
	tag := c.Int(typeID(from))
	var pay *Term
	ls := leaves(from)
	if len(ls) == 1 && ls[0].Kind == lkRef && v.A == nil {
		pay = v.L[0]
	} else if len(ls) == 1 && ls[0].Kind == lkRef {
		pay = v.L[0]
	} else if len(ls) == 0 {
		pay = c.Int(0)
	} else {
		// boxed
		ref := u.newRef(st)
		hasArr := false
		for _, l := range ls {
			if l.Arr > 0 {
				hasArr = true
			}
		}
		if !hasArr {
			a := &Addr{Kind: 'O', RT: from, Ref: ref, T: from}
			for i, l := range ls {
				key, hs, idx, _ := u.locate(a, l)
				u.heapSet(st, key, u.storeN(u.heapGet(st, key, hs), idx, v.L[i]), ref)
			}
		}
		pay = ref
	}
	d := v
	d.T = from
	return Val{T: to, L: []*Term{tag, pay}, Dyn: &d}
}

func (u *Unit) unbox(st *State, iv Val, t types.Type) Val {
	ls := leaves(t)
	if iv.Dyn != nil && types.Identical(iv.Dyn.T, t) {
		d := *iv.Dyn
		d.T = t
		return d
	}
	if len(ls) == 1 && ls[0].Kind == lkRef {
		u.leafFacts(st, ls[0], iv.L[1])
		return Val{T: t, L: []*Term{iv.L[1]}}
	}
	for _, l := range ls {
		if l.Arr > 0 {
			return u.newVal(st, "unbox", t)
		}
	}
	return u.loadCell(st, &Addr{Kind: 'O', RT: t, Ref: iv.L[1], T: t})
}

func (u *Unit) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) Val {
	c := u.c
	v := u.val(fr, st, x.X)
	t := x.AssertedType
	var ok *Term
	var res Val
	if _, isI := t.Underlying().(*types.Interface); isI {
		res = v
		res.T = t
		if v.Dyn != nil {
			ok = c.Bool(types.Implements(v.Dyn.T, t.Underlying().(*types.Interface)))
		} else {
			ok = c.And(c.Not(c.Eq(v.L[0], c.Int(0))), c.App("implements", SBool, v.L[0], c.Int(typeID(t))))
		}
	} else {
		ok = c.Eq(v.L[0], c.Int(typeID(t)))
		if ok.isFalse() {
			res = u.zero(t)
		} else {
			res = u.unbox(st, v, t)
		}
	}
	if !x.CommaOk {
		u.Assert(st, "typeassert", u.P.srcText(x), ok)
		res.T = x.Type()
		return res
	}
	if !ok.isTrue() {
		z := u.zero(t)
		out := Val{T: x.Type()}
		for i := range res.L {
			if res.L[i].sort.isArr() {
				out.L = append(out.L, res.L[i])
				continue
			}
			out.L = append(out.L, c.Ite(ok, res.L[i], z.L[i]))
		}
		out.L = append(out.L, ok)
		out.Bnd = []Val{{T: t, Dyn: res.Dyn, A: nil}}
		return out
	}
	out := Val{T: x.Type(), L: append(append([]*Term(nil), res.L...), ok)}
	out.Bnd = []Val{{T: t, Dyn: res.Dyn, A: res.A, Fn: res.Fn, Bnd: res.Bnd}}
	return out
}

// ---- maps -----------------------------------------------------------------

func (u *Unit) keySort(kt types.Type) (Sort, bool) {
	ls := leaves(kt)
	if len(ls) == 1 && ls[0].Arr == 0 {
		return ls[0].Sort, true
	}
	if len(ls) == 0 {
		return SInt, true
	}
	return SInt, true
}

// packKey turns a key value into one term (injective).
func (u *Unit) packKey(k Val, kt types.Type) *Term {
	ls := leaves(kt)
	if len(ls) == 1 && ls[0].Arr == 0 {
		return k.L[0]
	}
	c := u.c
	allInt := true
	for _, l := range ls {
		if l.Kind != lkInt || l.Arr > 0 {
			allInt = false
		}
	}
	if allInt {
		r := c.Int(0)
		for i, l := range ls {
			lo, _, bits, _ := intRange(l.T)
			r = c.Add(c.Mul(r, c.Big(new(big.Int).Lsh(big.NewInt(1), bits))), c.Sub(k.L[i], c.Big(lo)))
		}
		return r
	}
	r := c.App("pack_"+sanitize(typeKey(kt)), SInt, k.L...)
	for i, l := range ls {
		p := c.App(fmt.Sprintf("unpack_%s_%d", sanitize(typeKey(kt)), i), l.Sort, r)
		u.Assume(c.Eq(p, k.L[i]))
	}
	return r
}

func (u *Unit) mapKey(mt *types.Map, part string, l *Leaf) (string, Sort) {
	ks, _ := u.keySort(mt.Key())
	name := "M:" + typeKey(mt) + ":" + part
	var s Sort
	switch part {
	case "dom":
		s = arrSort(SInt, arrSort(ks, SBool))
	case "len":
		s = arrSort(SInt, SInt)
	default:
		name += l.Path
		s = arrSort(SInt, arrSort(ks, l.Sort))
	}
	if _, ok := u.P.keyLeaf[name]; !ok {
		kl := Leaf{Path: part, Sort: s, Kind: lkBool}
		switch part {
		case "len":
			kl.Kind = lkSliceLen
		case "dom":
		default:
			kl.Kind = l.Kind
			kl.T = l.T
			if l.Arr > 0 {
				kl.Kind = lkBool
			}
		}
		u.P.keyLeaf[name] = kl
	}
	return name, s
}

func (u *Unit) makeMap(st *State, t types.Type) Val {
	c := u.c
	mt := t.Underlying().(*types.Map)
	ref := u.newRef(st)
	k, s := u.mapKey(mt, "dom", nil)
	_, vs := s.arrParts()
	u.heapSet(st, k, c.Store(u.heapGet(st, k, s), ref, c.ConstArr(vs, c.tFalse)), ref)
	k, s = u.mapKey(mt, "len", nil)
	u.heapSet(st, k, c.Store(u.heapGet(st, k, s), ref, c.Int(0)), ref)
	return Val{T: t, L: []*Term{ref}}
}

func (u *Unit) mapDom(st *State, m Val) *Term {
	mt := m.T.Underlying().(*types.Map)
	k, s := u.mapKey(mt, "dom", nil)
	d := u.c.Select(u.heapGet(st, k, s), m.L[0])
	return d
}

func (u *Unit) mapGet(st *State, m, key Val) (*Term, Val) {
	c := u.c
	mt := m.T.Underlying().(*types.Map)
	pk := u.packKey(key, mt.Key())
	ok := c.And(c.Not(c.Eq(m.L[0], c.Int(0))), c.Select(u.mapDom(st, m), pk))
	out := Val{T: mt.Elem()}
	z := u.zero(mt.Elem())
	raw := Val{T: mt.Elem()}
	for i, l := range leaves(mt.Elem()) {
		l := l
		k, s := u.mapKey(mt, "val", &l)
		v := c.Select(c.Select(u.heapGet(st, k, s), m.L[0]), pk)
		u.leafFacts(st, l, v)
		raw.L = append(raw.L, v)
		if v.sort.isArr() {
			out.L = append(out.L, v)
		} else {
			out.L = append(out.L, c.Ite(ok, v, z.L[i]))
		}
	}
	u.sliceFacts(st, raw)
	return ok, out
}

func (u *Unit) mapLen(st *State, m Val) *Term {
	mt := m.T.Underlying().(*types.Map)
	k, s := u.mapKey(mt, "len", nil)
	n := u.c.Select(u.heapGet(st, k, s), m.L[0])
	u.leafFacts(st, Leaf{Kind: lkSliceLen}, n)
	if b, ok := mt.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && !n.bound && (n.op == "select" || n.op == "const") {
		if _, _, bits, _ := intRange(mt.Key()); bits <= 16 {
			// there are not more entries than keys
			n.SetRange(nil, big.NewInt(1<<bits))
			u.Assume(u.c.mk("<=", "", SBool, n, u.c.Int(1<<bits)))
		}
	}
	// a nil map is empty; a non-empty domain has positive length
	return u.c.Ite(u.c.Eq(m.L[0], u.c.Int(0)), u.c.Int(0), n)
}

func (u *Unit) mapSet(st *State, m, key, val Val) {
	c := u.c
	mt := m.T.Underlying().(*types.Map)
	pk := u.packKey(key, mt.Key())
	k, s := u.mapKey(mt, "dom", nil)
	h := u.heapGet(st, k, s)
	u.frameCheck(st, k, m.L[0])
	old := c.Select(c.Select(h, m.L[0]), pk)
	u.heapSet(st, k, c.Store(h, m.L[0], c.Store(c.Select(h, m.L[0]), pk, c.tTrue)), m.L[0])
	lk, ls := u.mapKey(mt, "len", nil)
	lh := u.heapGet(st, lk, ls)
	n := c.Select(lh, m.L[0])
	u.leafFacts(st, Leaf{Kind: lkSliceLen}, n)
	u.heapSet(st, lk, c.Store(lh, m.L[0], c.Ite(old, n, c.Add(n, c.Int(1)))), m.L[0])
	if val.A != nil && len(val.L) == 1 {
		u.unsupported("interior pointer stored in map")
	}
	for i, l := range leaves(mt.Elem()) {
		l := l
		vk, vs := u.mapKey(mt, "val", &l)
		vh := u.heapGet(st, vk, vs)
		u.heapSet(st, vk, c.Store(vh, m.L[0], c.Store(c.Select(vh, m.L[0]), pk, val.L[i])), m.L[0])
	}
}

func (u *Unit) mapDelete(st *State, m, key Val) {
	c := u.c
	mt := m.T.Underlying().(*types.Map)
	pk := u.packKey(key, mt.Key())
	k, s := u.mapKey(mt, "dom", nil)
	h := u.heapGet(st, k, s)
	u.frameCheck(st, k, m.L[0])
	old := c.Select(c.Select(h, m.L[0]), pk)
	u.heapSet(st, k, c.Store(h, m.L[0], c.Store(c.Select(h, m.L[0]), pk, c.tFalse)), m.L[0])
	lk, ls := u.mapKey(mt, "len", nil)
	lh := u.heapGet(st, lk, ls)
	n := c.Select(lh, m.L[0])
	u.leafFacts(st, Leaf{Kind: lkSliceLen}, n)
	u.heapSet(st, lk, c.Store(lh, m.L[0], c.Ite(old, c.Sub(n, c.Int(1)), n)), m.L[0])
}

func (u *Unit) next(fr *Frame, st *State, x *ssa.Next) Val {
	c := u.c
	itv := u.val(fr, st, x.Iter)
	it := itv.It
	tt := x.Type().(*types.Tuple)
	ok := c.Fresh("next_ok", SBool)
	out := Val{T: tt, L: []*Term{ok}}
	if it == nil {
		u.unsupported("range iterator merge")
	}
	if it.str {
		k := u.newVal(st, "stridx", types.Typ[types.Int])
		r := u.newVal(st, "strrune", types.Typ[types.Rune])
		n := u.slen(it.m.L[0])
		u.Assume(c.Implies(ok, c.And(c.Le(c.Int(0), k.L[0]), c.Lt(k.L[0], n), c.Le(c.Int(0), r.L[0]), c.Le(r.L[0], c.Int(0x10FFFF)))))
		for i := 1; i < tt.Len(); i++ {
			ls := leaves2(tt.At(i).Type())
			if len(ls) == 0 {
				continue
			}
			if i == 1 {
				out.L = append(out.L, k.L[0])
			} else {
				out.L = append(out.L, r.L[0])
			}
		}
		return out
	}
	var key Val
	kt := it.mt.Key()
	key = u.newVal(st, "mkey", kt)
	pk := u.packKey(key, kt)
	dom := u.mapDom(st, it.m)
	u.Assume(c.Implies(ok, c.And(c.Select(dom, pk), c.Not(c.Eq(it.m.L[0], c.Int(0))))))
	_, val := u.mapGet(st, it.m, key)
	{
		// ghosts of the iteration: number of keys visited so far, visited keys;
		// the loop visits every key once if the map is not modified meanwhile
		ck, ch := u.iterCount(st)
		n := c.Select(ch, it.ref)
		same := c.Bool(dom == it.dom)
		if dom != it.dom && !deletesKeys(x.Parent()) {
			// equal domains mean that no key was added; a key which
			// was removed and added again could be visited twice
			same = c.Eq(dom, it.dom)
		}
		ln := u.mapLen(st, it.m)
		u.Assume(c.Le(c.Int(0), n))
		u.Assume(c.Implies(same, c.And(c.Le(n, ln), c.Eq(ok, c.Lt(n, ln)))))
		u.heapSet(st, ck, c.Store(ch, it.ref, c.Ite(ok, c.Add(n, c.Int(1)), n)), it.ref)
		if u.usesVisited() {
			dk, dh, _ := u.iterDone(st, it)
			done := c.Select(dh, it.ref)
			u.Assume(c.Implies(c.And(same, ok), c.Not(c.Select(done, pk))))
			k := c.Bound("k", pk.sort)
			dsel, vsel := c.mk("select", "", SBool, dom, k), c.mk("select", "", SBool, done, k)
			nn := c.Not(c.Eq(it.m.L[0], c.Int(0)))
			u.Assume(c.Forall([]*Term{k}, c.Implies(c.And(same, c.Not(ok), nn, dsel), vsel), []*Term{dsel}))
			u.Assume(c.Forall([]*Term{k}, c.Implies(c.And(same, vsel), c.And(nn, dsel)), []*Term{vsel}))
			u.heapSet(st, dk, c.Store(dh, it.ref, c.Ite(ok, c.Store(done, pk, c.tTrue), done)), it.ref)
		}
	}
	if !isInvalid(tt.At(1).Type()) {
		out.L = append(out.L, key.L...)
	} else {
		out.L = append(out.L, leavesZero(u, tt.At(1).Type())...)
	}
	if !isInvalid(tt.At(2).Type()) {
		out.L = append(out.L, val.L...)
	} else {
		out.L = append(out.L, leavesZero(u, tt.At(2).Type())...)
	}
	return out
}

// deletesKeys: does fn remove map entries?
func deletesKeys(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				if bi, ok := call.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
					return true
				}
			}
		}
	}
	return false
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func leaves2(t types.Type) []Leaf {
	if isInvalid(t) {
		return nil
	}
	return leaves(t)
}

func leavesZero(u *Unit, t types.Type) []*Term {
	return nil
}

func (u *Unit) iterCount(st *State) (string, *Term) {
	k := u.ghostKey("$itn", SInt)
	return k, u.heapGet(st, k, arrSort(SInt, SInt))
}

func (u *Unit) iterDone(st *State, it *mapIter) (string, *Term, Sort) {
	_, s := u.mapKey(it.mt, "dom", nil)
	_, ds := s.arrParts()
	k := u.ghostKey("$itd"+typeKey(it.mt.Key()), ds)
	return k, u.heapGet(st, k, arrSort(SInt, ds)), ds
}

// usesVisited: is visited(k) used in a loop invariant of the current function?
func (u *Unit) usesVisited() bool {
	if u.con == nil {
		return false
	}
	for _, l := range u.con.Loops {
		for _, i := range l.Inv {
			if strings.Contains(i.Text, "visited(") {
				return true
			}
		}
	}
	return false
}
