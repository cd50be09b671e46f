package main

import "math/big"

// bitsOf returns a superset of the bits which may be set in the non-negative
// term t, or nil.
func (c *Ctx) bitsOf(t *Term) *big.Int {
	if r, ok := c.bitMemo[t.id]; ok {
		return r
	}
	r := c.bitsOf1(t)
	c.bitMemo[t.id] = r
	return r
}

func pow2(x *big.Int) (uint, bool) {
	if x.Sign() <= 0 {
		return 0, false
	}
	k := x.TrailingZeroBits()
	return k, new(big.Int).Rsh(x, k).Cmp(big.NewInt(1)) == 0
}

func (c *Ctx) bitsOf1(t *Term) *big.Int {
	switch t.op {
	case "int":
		if t.val.Sign() < 0 {
			return nil
		}
		return t.val
	case "*":
		if t.args[0].isInt() {
			if k, ok := pow2(t.args[0].val); ok {
				if m := c.bitsOf(t.args[1]); m != nil {
					return new(big.Int).Lsh(m, k)
				}
			}
		}
	case "+":
		a, b := c.bitsOf(t.args[0]), c.bitsOf(t.args[1])
		if a != nil && b != nil && new(big.Int).And(a, b).Sign() == 0 {
			return new(big.Int).Or(a, b)
		}
	case "ite":
		a, b := c.bitsOf(t.args[1]), c.bitsOf(t.args[2])
		if a != nil && b != nil {
			return new(big.Int).Or(a, b)
		}
		return nil
	case "mod":
		if t.args[1].isInt() {
			if k, ok := pow2(t.args[1].val); ok {
				m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(1))
				if a := c.bitsOf(t.args[0]); a != nil {
					m.And(m, a)
				}
				return m
			}
		}
	case "div":
		if t.args[1].isInt() {
			if k, ok := pow2(t.args[1].val); ok {
				if a := c.bitsOf(t.args[0]); a != nil {
					return new(big.Int).Rsh(a, k)
				}
			}
		}
	}
	lo, hi := c.Rng(t)
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return nil
	}
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(hi.BitLen())), big.NewInt(1))
}

// disjoint: the two numbers have no bit in common, so that adding them is
// the same as or-ing them, and every bit of the sum comes from one of them.
func (c *Ctx) disjoint(a, b *Term) bool {
	x, y := c.bitsOf(a), c.bitsOf(b)
	return x != nil && y != nil && new(big.Int).And(x, y).Sign() == 0
}
