package main

import (
	"math/big"
	"sort"
)

// linear normal form of Int terms

type linTerm struct {
	atoms map[int]*Term
	coef  map[int]*big.Int
	k     *big.Int
	n     int
}

func newLin() *linTerm {
	return &linTerm{atoms: map[int]*Term{}, coef: map[int]*big.Int{}, k: new(big.Int)}
}

func (l *linTerm) add(t *Term, m *big.Int) bool {
	l.n++
	if l.n > 64 {
		return false
	}
	switch {
	case t.isInt():
		l.k.Add(l.k, new(big.Int).Mul(m, t.val))
		return true
	case t.op == "+" && len(t.args) == 2:
		return l.add(t.args[0], m) && l.add(t.args[1], m)
	case t.op == "-" && len(t.args) == 2:
		return l.add(t.args[0], m) && l.add(t.args[1], new(big.Int).Neg(m))
	case t.op == "*" && t.args[0].isInt():
		return l.add(t.args[1], new(big.Int).Mul(m, t.args[0].val))
	}
	if o, ok := l.coef[t.id]; ok {
		l.coef[t.id] = new(big.Int).Add(o, m)
	} else {
		l.atoms[t.id] = t
		l.coef[t.id] = m
	}
	return true
}

func (l *linTerm) ids() []int {
	var ids []int
	for id, k := range l.coef {
		if k.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	return ids
}

func (c *Ctx) linTerm(l *linTerm) *Term {
	var pos *Term
	one := big.NewInt(1)
	mono := func(t *Term, k *big.Int) *Term {
		if k.Cmp(one) == 0 {
			return t
		}
		return c.mk("*", "", SInt, c.Big(k), t)
	}
	var negs []*Term
	for _, id := range l.ids() {
		k := l.coef[id]
		if k.Sign() > 0 {
			m := mono(l.atoms[id], k)
			if pos == nil {
				pos = m
			} else {
				pos = c.mk("+", "", SInt, pos, m)
			}
		} else {
			negs = append(negs, mono(l.atoms[id], new(big.Int).Neg(k)))
		}
	}

	if pos == nil {
		if len(negs) == 0 {
			return c.Big(l.k)
		}
		t := c.Big(l.k)
		for _, n := range negs {
			t = c.mk("-", "", SInt, t, n)
		}
		return t
	}
	t := pos
	for _, n := range negs {
		t = c.mk("-", "", SInt, t, n)
	}
	if l.k.Sign() == 0 {
		return t
	}
	return c.mk("+", "", SInt, t, c.Big(l.k))
}

// addMul returns a + m*b in normal form, or nil if the terms are too large.
func (c *Ctx) addMul(a, b *Term, m int64) *Term {
	l := newLin()
	if !l.add(a, big.NewInt(1)) || !l.add(b, big.NewInt(m)) {
		return nil
	}
	return c.linTerm(l)
}

// subst replaces terms by id, rebuilding with simplification.
func (c *Ctx) subst(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 || !t.bound && !c.substAny {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = c.subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = c.rebuild(t, args)
	}
	memo[t.id] = r
	return r
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "+":
		if len(a) == 2 {
			return c.Add(a[0], a[1])
		}
	case "-":
		if len(a) == 2 {
			return c.Sub(a[0], a[1])
		}
	case "*":
		return c.Mul(a[0], a[1])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "not":
		return c.Not(a[0])
	case "=>":
		return c.Implies(a[0], a[1])
	case "=":
		return c.Eq(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "forall", "exists":
		n := c.mk(t.op, t.name, t.sort, a...)
		// boundness was computed when the quantifier was built; the
		// replacement keeps the same outer variables free or not
		n.bound = t.bound
		return n
	}
	return c.mk(t.op, t.name, t.sort, a...)
}

// absIndex rewrites  forall i :: {A[i+r]} body  to  forall j :: {A[j]} body[i := j-r],
// so that the solver's syntactic matching works on the absolute index.
func (c *Ctx) absIndex(v *Term, body *Term, pats [][]*Term) (*Term, *Term, [][]*Term) {
	for _, p := range pats {
		for _, t := range p {
			if t.op != "select" {
				continue
			}
			ix := t.args[1]
			if ix == v {
				return v, body, pats
			}
			l := newLin()
			if ix.sort != SInt || !l.add(ix, big.NewInt(1)) {
				continue
			}
			k, ok := l.coef[v.id]
			if !ok || k.Cmp(big.NewInt(1)) != 0 {
				continue
			}
			delete(l.coef, v.id)
			bad := false
			for _, a := range l.atoms {
				if a != v && a.bound && dependsOn(a, v) {
					bad = true
				}
			}
			if bad {
				continue
			}
			rest := c.linTerm(l)
			j := c.Bound("j", SInt)
			m := map[int]*Term{ix.id: j, v.id: c.Sub(j, rest)}
			memo := map[int]*Term{}
			nb := c.subst(body, m, memo)
			var np [][]*Term
			for _, p := range pats {
				var q []*Term
				for _, t := range p {
					q = append(q, c.subst(t, m, memo))
				}
				np = append(np, q)
			}
			return j, nb, np
		}
	}
	return v, body, pats
}

func dependsOn(t, v *Term) bool {
	fv := map[int]bool{}
	freeBound(t, fv, map[int]bool{})
	return fv[v.id]
}

// validPat: usable as an SMT pattern term.
func validPat(t *Term) bool {
	if !t.bound {
		return false
	}
	var rec func(t *Term, top bool) bool
	rec = func(t *Term, top bool) bool {
		switch t.op {
		case "ite", "and", "or", "not", "=>", "=", "<=", "<", "forall", "exists":
			return false
		case "bound", "const", "int":
			return !top
		case "+", "-", "*":
			if top {
				return false
			}
		}
		for _, a := range t.args {
			if a.bound && !rec(a, false) {
				return false
			}
		}
		return true
	}
	return rec(t, true)
}
