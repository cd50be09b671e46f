package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model gives the meaning of a library function. It returns (nil, true) for
// unconstrained results and ok=false to fall back to the default treatment.
type model func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool)

var models map[string]model

func (u *Unit) ghostGet(st *State, name string, s Sort, ref *Term) *Term {
	key := u.ghostKey(name, s)
	return u.c.Select(u.heapGet(st, key, arrSort(SInt, s)), ref)
}

func (u *Unit) ghostSet(st *State, name string, s Sort, ref, v *Term) {
	key := u.ghostKey(name, s)
	h := u.heapGet(st, key, arrSort(SInt, s))
	u.frameCheck(st, key, ref)
	u.heapSet(st, key, u.c.Store(h, ref, v), ref)
}

var arrII = arrSort(SInt, SInt)

// freshErr makes a non-nil error.
func (u *Unit) freshErr(st *State) Val {
	c := u.c
	v := Val{T: types.Universe.Lookup("error").Type(), L: []*Term{c.Fresh("errT", SInt), u.newRef(st)}}
	u.Assume(c.Gt(v.L[0], c.Int(0)))
	return v
}

func (u *Unit) nilErr() Val {
	return Val{T: types.Universe.Lookup("error").Type(), L: []*Term{u.c.Int(0), u.c.Int(0)}}
}

// errIf is nil when ok holds and some non-nil error otherwise.
func (u *Unit) errIf(st *State, ok *Term) Val {
	c := u.c
	e := u.freshErr(st)
	return Val{T: e.T, L: []*Term{c.Ite(ok, c.Int(0), e.L[0]), c.Ite(ok, c.Int(0), e.L[1])}}
}

func ghostRefOf(v Val) *Term {
	if _, ok := v.T.Underlying().(*types.Interface); ok {
		return v.L[1]
	}
	return v.L[0]
}

// byteLayout lists the leaves of a fixed-size type as (path, bytes, signed).
type layoutItem struct {
	leaf   int
	size   int64
	signed bool
	arrIdx int64 // -1: scalar
	blank  bool
}

func byteLayout(t types.Type) ([]layoutItem, int64, bool) {
	var out []layoutItem
	total := int64(0)
	leaf := 0
	var rec func(t types.Type) bool
	rec = func(t types.Type) bool {
		switch x := t.Underlying().(type) {
		case *types.Basic:
			if x.Info()&types.IsInteger == 0 || x.Kind() == types.Int || x.Kind() == types.Uint {
				return false
			}
			_, _, bits, signed := intRange(t)
			out = append(out, layoutItem{leaf, int64(bits / 8), signed, -1, false})
			total += int64(bits / 8)
			leaf++
			return true
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				k := len(out)
				if !rec(x.Field(i).Type()) {
					return false
				}
				if x.Field(i).Name() == "_" {
					for ; k < len(out); k++ {
						out[k].blank = true
					}
				}
			}
			return true
		case *types.Array:
			b, ok := x.Elem().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 || x.Len() > 256 {
				return false
			}
			_, _, bits, signed := intRange(x.Elem())
			for i := int64(0); i < x.Len(); i++ {
				out = append(out, layoutItem{leaf, int64(bits / 8), signed, i, false})
				total += int64(bits / 8)
			}
			leaf++
			return true
		}
		return false
	}
	if !rec(t) {
		return nil, 0, false
	}
	return out, total, true
}

// dataPtr resolves the argument of binary.Read: a static pointer or slice.
func dataArg(v Val) (Val, bool) {
	if v.Dyn == nil {
		return Val{}, false
	}
	return *v.Dyn, true
}

func (u *Unit) beBytes(at func(int64) *Term, n int64, signed bool) *Term {
	c := u.c
	r := c.Int(0)
	for k := int64(0); k < n; k++ {
		r = c.Add(c.Mul(r, c.Int(256)), at(k))
	}
	if signed {
		r = c.Sext(r, uint(8*n))
	}
	return r
}

// readerConsume models reading n bytes in full; returns ok and the byte accessor.
func (u *Unit) readerConsume(fr *Frame, st *State, r Val, n *Term, instr ssa.Instruction) (*Term, func(*Term) *Term) {
	c := u.c
	if r.Dyn != nil {
		// a reader of this repository with a contract for Read: one call of
		// Read into a private buffer (io.ReadFull stops when the buffer is full)
		if m := u.P.Prog.LookupMethod(r.Dyn.T, nil, "Read"); m != nil && pkgOf(m) != nil && inlinePkg(pkgOf(m).Path()) {
			if con := u.P.contractFor(m); con != nil {
				b := u.byteBlock(st, n, nil)
				res := u.applyContract(fr, st, con, m, m.Signature, []Val{*r.Dyn, b}, u.P.srcText(instr), false)
				arr, off, _ := u.sliceBytes(st, b)
				return c.Eq(res[0].L[0], n), func(i *Term) *Term {
					t := c.Select(arr, c.Add(off, i))
					t.SetRange(new(big.Int), big.NewInt(255))
					if !t.bound && u.once(t.id) {
						u.Assume(c.And(c.mk("<=", "", SBool, c.Int(0), t), c.mk("<=", "", SBool, t, c.Int(255))))
					}
					return t
				}
			}
		}
	}
	ref := ghostRefOf(r)
	data := u.ghostGet(st, "data", arrII, ref)
	pos := u.ghostGet(st, "pos", SInt, ref)
	size := u.ghostGet(st, "size", SInt, ref)
	exact := u.ghostGet(st, "exact", SBool, ref)
	ok := c.Fresh("readok", SBool)
	u.Assume(c.And(c.Le(c.Int(0), pos), c.Le(c.Int(0), size), c.Le(size, c.Big(maxLen))))
	u.Assume(c.Implies(ok, c.Le(c.Add(pos, n), size)))
	u.Assume(c.Implies(c.And(exact, c.Le(c.Add(pos, n), size)), ok))
	npos := c.Fresh("rpos", SInt)
	u.Assume(c.And(c.Ge(npos, pos), c.Implies(ok, c.Eq(npos, c.Add(pos, n)))))
	u.Assume(c.Implies(c.Not(ok), c.Le(npos, c.Add(pos, n))))
	u.ghostSet(st, "pos", SInt, ref, npos)
	return ok, func(i *Term) *Term {
		t := c.Select(data, c.Add(pos, i))
		t.SetRange(new(big.Int), big.NewInt(255))
		if !t.bound && u.once(t.id) {
			u.Assume(c.And(c.mk("<=", "", SBool, c.Int(0), t), c.mk("<=", "", SBool, t, c.Int(255))))
		}
		return t
	}
}

// writerAppend models writing bytes to an io.Writer; the byte at i is at(i).
func (u *Unit) writerAppend(st *State, w Val, n *Term, items func(arr, base *Term) *Term) (*Term, *Term) {
	c := u.c
	ref := ghostRefOf(w)
	data := u.ghostGet(st, "wdata", arrII, ref)
	ln := u.ghostGet(st, "wlen", SInt, ref)
	exact := u.ghostGet(st, "wexact", SBool, ref)
	u.Assume(c.And(c.Le(c.Int(0), ln), c.Le(ln, c.Big(maxLen))))
	if isBuffer(w) {
		u.ghostSet(st, "wdata", arrII, ref, items(data, ln))
		u.ghostSet(st, "wlen", SInt, ref, c.Add(ln, n))
		return c.tTrue, n
	}
	k := c.Fresh("wn", SInt)
	u.Assume(c.And(c.Le(c.Int(0), k), c.Le(k, n)))
	// a short write comes with an error; an error may also follow a full write
	fail := c.Fresh("wfail", SBool)
	ok := c.And(c.Eq(k, n), c.Not(fail))
	u.Assume(c.Implies(exact, c.And(c.Eq(k, n), c.Not(fail))))
	full := items(data, ln)
	nd := c.Fresh("wdata", arrII)
	u.Assume(c.Implies(c.Eq(k, n), c.Eq(nd, full)))
	i := c.Bound("i", SInt)
	sel := c.mk("select", "", SInt, nd, i)
	u.Assume(c.Forall([]*Term{i}, c.Implies(c.Lt(i, c.Add(ln, k)), c.Eq(sel, c.Select(full, i))), []*Term{sel}))
	u.ghostSet(st, "wdata", arrII, ref, nd)
	u.ghostSet(st, "wlen", SInt, ref, c.Add(ln, k))
	return ok, k
}

// isBuffer: the writer is known to be a *bytes.Buffer, which never fails.
func isBuffer(w Val) bool {
	return w.Dyn != nil && w.Dyn.T.String() == "*bytes.Buffer"
}

// byteFacts states that the cells of the arrays below the stores are bytes.
func (u *Unit) byteFacts(st *State, d *Term) {
	for d.op == "store" {
		d = d.args[0]
	}
	if d.op == "ite" {
		u.byteFacts(st, d.args[1])
		u.byteFacts(st, d.args[2])
		return
	}
	if d.op == "constarr" || !u.once(d.id) {
		return
	}
	u.cellFacts(st, u.keyOf('E', "uint8", leaves(types.Typ[types.Uint8])[0]), d)
}

func (u *Unit) sliceBytes(st *State, p Val) (arr, off, n *Term) {
	key := u.keyOf('E', "uint8", leaves(types.Typ[types.Uint8])[0])
	h := u.heapGet(st, key, arrSort(SInt, arrII))
	return u.c.Select(h, p.L[0]), p.L[1], p.L[2]
}

// rebase is an array whose cells 0..n-1 are arr[off..off+n-1].
func (u *Unit) rebase(arr, off, n *Term) *Term {
	c := u.c
	if off.isInt() && off.val.Sign() == 0 {
		return arr
	}
	d := c.Fresh("rdata", arrII)
	i := c.Bound("i", SInt)
	sel := c.mk("select", "", SInt, d, i)
	u.Assume(c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.Eq(sel, c.Select(arr, c.Add(off, i)))), []*Term{sel}))
	return d
}

func (u *Unit) concatArr(data, base, arr, off, n *Term) *Term {
	c := u.c
	if n.isInt() && n.val.IsInt64() && n.val.Int64() <= 64 {
		r := data
		for k := int64(0); k < n.val.Int64(); k++ {
			r = c.Store(r, c.Add(base, c.Int(k)), c.Select(arr, c.Add(off, c.Int(k))))
		}
		return r
	}
	f := c.Fresh("cat", arrII)
	i := c.Bound("i", SInt)
	sel := c.mk("select", "", SInt, f, i)
	in := c.And(c.Le(base, i), c.Lt(i, c.Add(base, n)))
	u.Assume(c.Forall([]*Term{i}, c.And(c.Implies(in, c.Eq(sel, c.Select(arr, c.Add(off, c.Sub(i, base))))), c.Implies(c.Not(in), c.Eq(sel, c.Select(data, i)))), []*Term{sel}))
	return f
}

func (u *Unit) byteBlock(st *State, n *Term, fill func(sel, i *Term) *Term) Val {
	c := u.c
	ref := u.newRef(st)
	key := u.keyOf('E', "uint8", leaves(types.Typ[types.Uint8])[0])
	h := u.heapGet(st, key, arrSort(SInt, arrII))
	f := c.Fresh("blk", arrII)
	u.cellFacts(st, key, f)
	if fill != nil {
		i := c.Bound("i", SInt)
		sel := c.mk("select", "", SInt, f, i)
		u.Assume(c.Forall([]*Term{i}, fill(sel, i), []*Term{sel}))
	}
	u.heapSet(st, key, c.Store(h, ref, f), ref)
	cp := c.FreshRange("cap", new(big.Int), maxLen)
	u.Assume(c.And(c.Le(n, cp), c.Le(cp, c.Big(maxLen))))
	return Val{T: types.NewSlice(types.Typ[types.Uint8]), L: []*Term{ref, c.Int(0), n, cp}}
}

func (u *Unit) fillBytes(st *State, p Val, n *Term, at func(*Term) *Term, cond *Term) {
	c := u.c
	key := u.keyOf('E', "uint8", leaves(types.Typ[types.Uint8])[0])
	h := u.heapGet(st, key, arrSort(SInt, arrII))
	old := c.Select(h, p.L[0])
	f := c.Fresh("fill", arrII)
	u.cellFacts(st, key, f)
	i := c.Bound("i", SInt)
	sel := c.mk("select", "", SInt, f, i)
	in := c.And(c.Le(p.L[1], i), c.Lt(i, c.Add(p.L[1], n)))
	whole := c.And(c.Le(p.L[1], i), c.Lt(i, c.Add(p.L[1], p.L[2])))
	u.Assume(c.Forall([]*Term{i}, c.And(c.Implies(c.And(cond, in), c.Eq(sel, at(c.Sub(i, p.L[1])))), c.Implies(c.Not(whole), c.Eq(sel, c.Select(old, i)))), []*Term{sel}))
	u.frameCheckIf(st, c.Gt(p.L[2], c.Int(0)), key, p.L[0])
	u.heapSet(st, key, c.Store(h, p.L[0], f), p.L[0])
}

// rotate the contents of a slice: arbitrary rearrangement
func (u *Unit) permute(st *State, s Val) {
	c := u.c
	et := s.T.Underlying().(*types.Slice).Elem()
	perm, inv := c.Fresh("perm", arrII), c.Fresh("inv", arrII)
	for _, l := range leaves(et) {
		key, h, as := u.elemHeap(st, et, l)
		_, es := as.arrParts()
		old := c.Select(h, s.L[0])
		f := c.Fresh("srt$"+l.Path, as)
		u.cellFacts(st, key, f)
		i := c.Bound("i", SInt)
		sel := c.mk("select", "", es, f, i)
		in := c.And(c.Le(s.L[1], i), c.Lt(i, c.Add(s.L[1], s.L[2])))
		p := c.Select(perm, i)
		u.Assume(c.Forall([]*Term{i}, c.And(c.Implies(in, c.And(c.Le(s.L[1], p), c.Lt(p, c.Add(s.L[1], s.L[2])), c.Eq(c.Select(inv, p), i), c.Eq(sel, c.Select(old, p)))), c.Implies(c.Not(in), c.Eq(sel, c.Select(old, i)))), []*Term{sel}))
		o := c.mk("select", "", es, old, i)
		q := c.Select(inv, i)
		u.Assume(c.Forall([]*Term{i}, c.Implies(in, c.And(c.Le(s.L[1], q), c.Lt(q, c.Add(s.L[1], s.L[2])), c.Eq(c.Select(perm, q), i), c.Eq(c.mk("select", "", es, f, q), o))), []*Term{o}))
		u.frameCheckIf(st, c.Gt(s.L[2], c.Int(1)), key, s.L[0])
		u.heapSet(st, key, c.Store(h, s.L[0], f), s.L[0])
	}
}

// sortedBy states that s is ordered by less(i, j), if the result of the
// comparison is an expression over the elements.
func (u *Unit) sortedBy(fr *Frame, st *State, s Val, less Val) {
	c := u.c
	a, b := c.FreshRange("si", new(big.Int), maxLen), c.FreshRange("sj", new(big.Int), maxLen)
	mark := c.n
	s2 := st.clone()
	s2.reach = c.And(st.reach, c.Lt(a, s.L[2]), c.Lt(b, s.L[2]))
	it := types.Typ[types.Int]
	u.dry++
	res, _, ok := u.runFn(less.Fn, []Val{u.one(it, b), u.one(it, a)}, less.Bnd, s2, fr)
	u.dry--
	if !ok || len(res) != 1 || len(res[0].L) != 1 {
		return
	}
	t := res[0].L[0] // less(b, a)
	seen := map[int]bool{}
	var closed func(t *Term) bool
	closed = func(t *Term) bool {
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		if t.id >= mark && (t.op == "const" || t.op == "bound" || t.op == "forall" || t.op == "exists") {
			return false
		}
		for _, x := range t.args {
			if !closed(x) {
				return false
			}
		}
		return true
	}
	if t.isTrue() || t.isFalse() || !closed(t) {
		return
	}
	et := s.T.Underlying().(*types.Slice).Elem()
	_, h, _ := u.elemHeap(st, et, leaves(et)[0])
	arr := c.Select(h, s.L[0])
	i, j := c.Bound("i", SInt), c.Bound("j", SInt)
	c.substAny = true
	g := c.subst(t, map[int]*Term{a.id: c.Sub(i, s.L[1]), b.id: c.Sub(j, s.L[1])}, map[int]*Term{})
	c.substAny = false
	u.Assume(c.Forall([]*Term{i, j}, c.Implies(c.And(c.Le(s.L[1], i), c.Lt(i, j), c.Lt(j, c.Add(s.L[1], s.L[2]))), c.Not(g)), []*Term{c.Select(arr, i), c.Select(arr, j)}))
}

func (u *Unit) copySlice(st *State, s Val, n *Term) Val {
	c := u.c
	et := s.T.Underlying().(*types.Slice).Elem()
	ref := u.newRef(st)
	for _, l := range leaves(et) {
		key, h, _ := u.elemHeap(st, et, l)
		u.heapSet(st, key, c.Store(h, ref, c.Select(h, s.L[0])), ref)
	}
	cp := c.FreshRange("cap", new(big.Int), maxLen)
	u.Assume(c.And(c.Le(n, cp), c.Le(cp, c.Big(maxLen))))
	return Val{T: s.T, L: []*Term{ref, s.L[1], n, cp}}
}

func init() {
	noop := func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
		return nil, true
	}
	newErr := func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
		return []Val{u.freshErr(st)}, true
	}
	insert := func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
		at := args[1].L[0]
		u.Assert(st, "slice", u.P.srcText(instr), u.c.And(u.c.Le(u.c.Int(0), at), u.c.Le(at, args[0].L[2])))
		return []Val{u.insertOp(st, args[0].T, at, []Val{args[0], args[2]})}, true
	}
	// slices.Delete: the tail moves down and the freed elements are zeroed
	// (before Go 1.22 and in old x/exp versions they keep their value; the
	// x/exp version pinned here zeroes them).
	del := func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
		c := u.c
		s, i, j := args[0], args[1].L[0], args[2].L[0]
		n := s.L[2]
		u.Assert(st, "slice", u.P.srcText(instr), c.And(c.Le(c.Int(0), i), c.Le(i, j), c.Le(j, n)))
		d := c.Sub(j, i)
		for _, l := range leaves(s.T.Underlying().(*types.Slice).Elem()) {
			key, h, as := u.elemHeap(st, s.T.Underlying().(*types.Slice).Elem(), l)
			_, es := as.arrParts()
			old := c.Select(h, s.L[0])
			f := c.Fresh("del$"+l.Path, as)
			u.cellFacts(st, key, f)
			x := c.Bound("i", SInt)
			sel := c.mk("select", "", es, f, x)
			lo, mid, hi := c.Add(s.L[1], i), c.Sub(c.Add(s.L[1], n), d), c.Add(s.L[1], n)
			moved := c.And(c.Le(lo, x), c.Lt(x, mid))
			zero := c.And(c.Le(mid, x), c.Lt(x, hi))
			u.Assume(c.Forall([]*Term{x}, c.And(
				c.Implies(moved, c.Eq(sel, c.Select(old, c.Add(x, d)))),
				c.Implies(zero, c.Eq(sel, zeroLeaf(c, l))),
				c.Implies(c.Or(c.Lt(x, lo), c.Le(hi, x)), c.Eq(sel, c.Select(old, x)))), []*Term{sel}))
			u.frameCheckIf(st, c.Gt(d, c.Int(0)), key, s.L[0])
			u.heapSet(st, key, c.Store(h, s.L[0], f), s.L[0])
		}
		return []Val{{T: s.T, L: []*Term{s.L[0], s.L[1], c.Sub(n, d), s.L[3]}}}, true
	}
	sorter := func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
		s := args[0]
		if s.Dyn != nil {
			s = *s.Dyn
		}
		if _, ok := s.T.Underlying().(*types.Slice); !ok {
			return nil, false
		}
		// the comparison function may be called on any two positions
		if len(args) > 1 && args[1].Fn != nil && args[1].Fn.Signature.Params().Len() == 2 && isInteger(args[1].Fn.Signature.Params().At(0).Type()) && u.dry == 0 {
			c := u.c
			a, b := c.FreshRange("ci", new(big.Int), maxLen), c.FreshRange("cj", new(big.Int), maxLen)
			s2 := st.clone()
			s2.reach = c.And(st.reach, c.Le(c.Int(0), a), c.Lt(a, s.L[2]), c.Le(c.Int(0), b), c.Lt(b, s.L[2]))
			it := types.Typ[types.Int]
			u.runFn(args[1].Fn, []Val{u.one(it, a), u.one(it, b)}, args[1].Bnd, s2, fr)
		}
		u.permute(st, s)
		if len(args) > 1 && args[1].Fn != nil && args[1].Fn.Signature.Params().Len() == 2 && isInteger(args[1].Fn.Signature.Params().At(0).Type()) && u.dry == 0 {
			u.sortedBy(fr, st, s, args[1])
		}
		return []Val{}, true
	}
	models = map[string]model{
		"errors.New": newErr,
		"fmt.Errorf": newErr,
		"fmt.Sprint": noop,
		"fmt.Sprintf": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			res := u.freshResults(st, sig, "Sprintf")
			// the text before the first verb is copied to the result
			if f, isLit := strLit(args[0].L[0]); isLit {
				if n := strings.IndexByte(f+"%", '%'); n > 0 {
					u.Assume(u.c.Ge(u.slen(res[0].L[0]), u.c.Int(int64(n))))
				}
			}
			return res, true
		},
		"sort.Slice": sorter, "sort.SliceStable": sorter,
		"sort.Sort": sortSort, "sort.Stable": sortSort,
		"slices.Sort": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			s := args[0]
			u.permute(st, s)
			et := s.T.Underlying().(*types.Slice).Elem()
			if isInteger(et) {
				c := u.c
				_, h, _ := u.elemHeap(st, et, leaves(et)[0])
				a := c.Select(h, s.L[0])
				i, j := c.Bound("i", SInt), c.Bound("j", SInt)
				u.Assume(c.Forall([]*Term{i, j}, c.Implies(c.And(c.Le(s.L[1], i), c.Le(i, j), c.Lt(j, c.Add(s.L[1], s.L[2]))), c.mk("<=", "", SBool, c.Select(a, i), c.Select(a, j))), []*Term{c.Select(a, i), c.Select(a, j)}))
			}
			return []Val{}, true
		},
		"sort.Search": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			n := args[0].L[0]
			f := args[1]
			r := c.FreshRange("found", new(big.Int), nil)
			u.Assume(c.Implies(st.reach, c.And(c.Le(c.Int(0), r), c.Implies(c.Ge(n, c.Int(0)), c.Le(r, n)), c.Implies(c.Lt(n, c.Int(0)), c.Eq(r, c.Int(0))))))
			if f.Fn == nil {
				return nil, false
			}
			it := types.Typ[types.Int]
			probe := func(i, cond *Term) *Term {
				s2 := st.clone()
				s2.reach = c.And(st.reach, cond)
				if s2.reach.isFalse() {
					return nil
				}
				res, _, ok := u.runFn(f.Fn, []Val{u.one(it, i)}, f.Bnd, s2, fr)
				if !ok {
					return nil
				}
				return res[0].L[0]
			}
			if u.dry == 0 {
				g := c.FreshRange("probe", new(big.Int), nil)
				probe(g, c.And(c.Le(c.Int(0), g), c.Lt(g, n)))
			}
			if b := probe(r, c.Lt(r, n)); b != nil {
				u.Assume(c.Implies(c.And(st.reach, c.Lt(r, n)), b))
			}
			if b := probe(c.Sub(r, c.Int(1)), c.And(c.Gt(r, c.Int(0)), c.Le(r, n))); b != nil {
				u.Assume(c.Implies(c.And(st.reach, c.Gt(r, c.Int(0)), c.Le(r, n)), c.Not(b)))
			}
			return []Val{u.one(it, r)}, true
		},
		"slices.Clone": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			v := u.copySlice(st, args[0], args[0].L[2])
			isNil := c.Eq(args[0].L[0], c.Int(0))
			v.L[0] = c.Ite(isNil, c.Int(0), v.L[0])
			v.L[3] = c.Ite(isNil, c.Int(0), v.L[3])
			return []Val{v}, true
		},
		"slices.BinarySearch": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			s := args[0]
			et := s.T.Underlying().(*types.Slice).Elem()
			if !isInteger(et) {
				return nil, false
			}
			_, h, _ := u.elemHeap(st, et, leaves(et)[0])
			a := c.Select(h, s.L[0])
			i := c.FreshRange("bs", new(big.Int), maxLen)
			f := c.Fresh("bsf", SBool)
			u.Assume(c.Implies(st.reach, c.And(c.Le(c.Int(0), i), c.Le(i, s.L[2]), c.Implies(f, c.And(c.Lt(i, s.L[2]), c.Eq(c.Select(a, c.Add(s.L[1], i)), args[1].L[0]))))))
			return []Val{u.one(types.Typ[types.Int], i), u.one(types.Typ[types.Bool], f)}, true
		},
		"math.Abs": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			x := args[0].L[0]
			neg := c.mk("<", "", SBool, x, c.Real(new(big.Rat)))
			return []Val{u.one(args[0].T, c.Ite(neg, c.Neg(x), x))}, true
		},
		"math.Floor": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			u.trusted["float64 arithmetic treated as exact real arithmetic"] = true
			return []Val{u.one(args[0].T, c.ToReal(c.mk("to_int", "", SInt, args[0].L[0])))}, true
		},
		"math.Ceil": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			u.trusted["float64 arithmetic treated as exact real arithmetic"] = true
			return []Val{u.one(args[0].T, c.ToReal(c.Neg(c.mk("to_int", "", SInt, c.Neg(args[0].L[0])))))}, true
		},
		"math.Round": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			u.trusted["float64 arithmetic treated as exact real arithmetic"] = true
			x := args[0].L[0]
			half := c.Real(big.NewRat(1, 2))
			up := c.mk("to_int", "", SInt, c.mk("+", "", SReal, x, half))
			dn := c.Neg(c.mk("to_int", "", SInt, c.mk("+", "", SReal, c.Neg(x), half)))
			neg := c.mk("<", "", SBool, x, c.Real(new(big.Rat)))
			return []Val{u.one(args[0].T, c.ToReal(c.Ite(neg, dn, up)))}, true
		},
		"math/bits.Len": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			x := args[0].L[0]
			r := c.FreshRange("bitlen", new(big.Int), big.NewInt(64))
			u.Assume(c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(64))))
			one := big.NewInt(1)
			for k := uint(0); k <= 64; k++ {
				hi := new(big.Int).Lsh(one, k)
				lo := new(big.Int)
				if k > 0 {
					lo.Lsh(one, k-1)
				}
				u.Assume(c.Eq(c.Eq(r, c.Int(int64(k))), c.And(c.Le(c.Big(lo), x), c.Lt(x, c.Big(hi)))))
			}
			return []Val{u.one(types.Typ[types.Int], r)}, true
		},
		"math/bits.OnesCount16": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			r := c.Int(0)
			for k := uint(0); k < 16; k++ {
				r = c.Add(r, c.Mod(c.Div(args[0].L[0], c.Int(1<<k)), c.Int(2)))
			}
			return []Val{u.one(types.Typ[types.Int], r)}, true
		},
		"golang.org/x/exp/slices.Insert": insert, "slices.Insert": insert,
		"golang.org/x/exp/slices.Delete": del, "slices.Delete": del,
		"golang.org/x/exp/maps.Keys": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			m := args[0]
			mt := m.T.Underlying().(*types.Map)
			n := u.mapLen(st, m)
			ref := u.newRef(st)
			kt := mt.Key()
			out := Val{T: types.NewSlice(kt), L: []*Term{ref, c.Int(0), n, n}}
			for _, l := range leaves(kt) {
				key, h, as := u.elemHeap(st, kt, l)
				f := c.Fresh("keys"+l.Path, as)
				u.cellFacts(st, key, f)
				u.heapSet(st, key, c.Store(h, ref, f), ref)
				if len(leaves(kt)) == 1 && l.Arr == 0 {
					_, es := as.arrParts()
					i := c.Bound("i", SInt)
					sel := c.mk("select", "", es, f, i)
					in := c.And(c.Le(c.Int(0), i), c.Lt(i, n))
					u.Assume(c.Forall([]*Term{i}, c.Implies(in, c.Select(u.mapDom(st, m), sel)), []*Term{sel}))
					// the keys are distinct and complete: kpos gives the place of each
					if es == SInt {
						kpos := c.Fresh("kpos", arrII)
						u.Assume(c.Forall([]*Term{i}, c.Implies(in, c.Eq(c.Select(kpos, sel), i)), []*Term{sel}))
						k := c.Bound("k", SInt)
						dk := c.Select(u.mapDom(st, m), k)
						pk := c.Select(kpos, k)
						u.Assume(c.Forall([]*Term{k}, c.Implies(dk, c.And(c.Le(c.Int(0), pk), c.Lt(pk, n), c.Eq(c.Select(f, pk), k))), []*Term{dk}))
					}
				}
			}
			return []Val{out}, true
		},
		"golang.org/x/exp/maps.Clear": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			k, s := u.mapKey(args[0].T.Underlying().(*types.Map), "dom", nil)
			_, vs := s.arrParts()
			u.frameCheck(st, k, args[0].L[0])
			u.heapSet(st, k, c.Store(u.heapGet(st, k, s), args[0].L[0], c.ConstArr(vs, c.tFalse)), args[0].L[0])
			k, s = u.mapKey(args[0].T.Underlying().(*types.Map), "len", nil)
			u.heapSet(st, k, c.Store(u.heapGet(st, k, s), args[0].L[0], c.Int(0)), args[0].L[0])
			return []Val{}, true
		},
		// ---- bytes and io --------------------------------------------------
		"bytes.NewReader": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			ref := u.newRef(st)
			arr, off, n := u.sliceBytes(st, args[0])
			d := u.rebase(arr, off, n)
			u.ghostSet(st, "data", arrII, ref, d)
			u.ghostSet(st, "pos", SInt, ref, c.Int(0))
			u.ghostSet(st, "size", SInt, ref, n)
			u.ghostSet(st, "exact", SBool, ref, c.tTrue)
			return []Val{{T: sig.Results().At(0).Type(), L: []*Term{ref}}}, true
		},
		"bytes.NewBuffer": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			ref := u.newRef(st)
			arr, off, n := u.sliceBytes(st, args[0])
			d := u.rebase(arr, off, n)
			u.ghostSet(st, "wdata", arrII, ref, d)
			u.ghostSet(st, "wlen", SInt, ref, n)
			u.ghostSet(st, "wexact", SBool, ref, c.tTrue)
			return []Val{{T: sig.Results().At(0).Type(), L: []*Term{ref}}}, true
		},
		"bytes.(*Buffer).Write":     bufWrite,
		"bytes.(*Buffer).WriteByte": bufWriteByte,
		"bytes.(*Buffer).Bytes": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			ref := args[0].L[0]
			d := u.ghostGet(st, "wdata", arrII, ref)
			n := u.ghostGet(st, "wlen", SInt, ref)
			u.Assume(c.And(c.Le(c.Int(0), n), c.Le(n, c.Big(maxLen))))
			nref := u.newRef(st)
			key := u.keyOf('E', "uint8", leaves(types.Typ[types.Uint8])[0])
			u.byteFacts(st, d)
			u.heapSet(st, key, c.Store(u.heapGet(st, key, arrSort(SInt, arrII)), nref, d), nref)
			cp := c.FreshRange("cap", new(big.Int), maxLen)
			u.Assume(c.And(c.Le(n, cp), c.Le(cp, c.Big(maxLen))))
			return []Val{{T: types.NewSlice(types.Typ[types.Uint8]), L: []*Term{nref, c.Int(0), n, cp}}}, true
		},
		"io.Writer.Write": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			arr, off, n := u.sliceBytes(st, args[1])
			ok, k := u.writerAppend(st, args[0], n, func(d, base *Term) *Term { return u.concatArr(d, base, arr, off, n) })
			return []Val{u.one(types.Typ[types.Int], k), u.errIf(st, ok)}, true
		},
		"io.Reader.Read": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			p := args[1]
			ref := ghostRefOf(args[0])
			data := u.ghostGet(st, "data", arrII, ref)
			pos := u.ghostGet(st, "pos", SInt, ref)
			size := u.ghostGet(st, "size", SInt, ref)
			u.Assume(c.And(c.Le(c.Int(0), size), c.Le(size, c.Big(maxLen)), c.Le(c.Int(0), pos)))
			n := c.FreshRange("rn", new(big.Int), maxLen)
			u.Assume(c.Implies(st.reach, c.And(c.Le(c.Int(0), n), c.Le(n, p.L[2]), c.Implies(c.Gt(n, c.Int(0)), c.Le(c.Add(pos, n), size)))))
			errv := u.newVal(st, "rerr", types.Universe.Lookup("error").Type())
			u.Assume(c.Implies(c.And(c.Eq(n, c.Int(0)), c.Gt(p.L[2], c.Int(0))), c.Not(c.Eq(errv.L[0], c.Int(0)))))
			u.fillBytes(st, p, n, func(i *Term) *Term { return c.Select(data, c.Add(pos, i)) }, c.tTrue)
			u.ghostSet(st, "pos", SInt, ref, c.Add(pos, n))
			return []Val{u.one(types.Typ[types.Int], n), errv}, true
		},
		"io.ReaderAt.ReadAt": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			p := args[1]
			pos := args[2].L[0]
			ref := ghostRefOf(args[0])
			data := u.ghostGet(st, "data", arrII, ref)
			size := u.ghostGet(st, "size", SInt, ref)
			n := c.FreshRange("ran", new(big.Int), maxLen)
			u.Assume(c.Implies(st.reach, c.And(c.Le(c.Int(0), n), c.Le(n, p.L[2]), c.Implies(c.Gt(n, c.Int(0)), c.Le(c.Add(pos, n), size)))))
			fail := c.Fresh("rafail", SBool)
			ok := c.And(c.Eq(n, p.L[2]), c.Not(fail))
			u.fillBytes(st, p, n, func(i *Term) *Term { return c.Select(data, c.Add(pos, i)) }, c.tTrue)
			return []Val{u.one(types.Typ[types.Int], n), u.errIf(st, ok)}, true
		},
		"io.ReadFull": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			p := args[1]
			ok, at := u.readerConsume(fr, st, args[0], p.L[2], instr)
			n := c.FreshRange("rfn", new(big.Int), maxLen)
			u.Assume(c.And(c.Le(c.Int(0), n), c.Le(n, p.L[2]), c.Eq(ok, c.Eq(n, p.L[2]))))
			u.fillBytes(st, p, n, at, c.tTrue)
			return []Val{u.one(types.Typ[types.Int], n), u.errIf(st, ok)}, true
		},
		"io.ReadAll": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			ref := ghostRefOf(args[0])
			data := u.ghostGet(st, "data", arrII, ref)
			pos := u.ghostGet(st, "pos", SInt, ref)
			size := u.ghostGet(st, "size", SInt, ref)
			exact := u.ghostGet(st, "exact", SBool, ref)
			u.Assume(c.And(c.Le(c.Int(0), size), c.Le(size, c.Big(maxLen)), c.Le(c.Int(0), pos)))
			n := c.FreshRange("ran", new(big.Int), maxLen)
			ok := c.Fresh("raok", SBool)
			u.Assume(c.And(c.Le(c.Int(0), n), c.Le(n, c.Big(maxLen)), c.Implies(c.Gt(n, c.Int(0)), c.Le(c.Add(pos, n), size)), c.Implies(ok, c.Ge(c.Add(pos, n), size)), c.Implies(exact, ok)))
			v := u.byteBlock(st, n, func(sel, i *Term) *Term {
				return c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.Eq(sel, c.Select(data, c.Add(pos, i))))
			})
			u.ghostSet(st, "pos", SInt, ref, c.Add(pos, n))
			return []Val{v, u.errIf(st, ok)}, true
		},
		"io.NewSectionReader": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			ref := u.newRef(st)
			off := args[1].L[0]
			src := ghostRefOf(args[0])
			data := u.ghostGet(st, "data", arrII, src)
			d := c.Fresh("secdata", arrII)
			i := c.Bound("i", SInt)
			sel := c.mk("select", "", SInt, d, i)
			u.Assume(c.Forall([]*Term{i}, c.Eq(sel, c.Select(data, c.Add(off, i))), []*Term{sel}))
			u.ghostSet(st, "data", arrII, ref, d)
			u.ghostSet(st, "pos", SInt, ref, c.Int(0))
			sz := c.FreshRange("secsize", new(big.Int), maxLen)
			n := args[2].L[0]
			u.Assume(c.And(c.Le(c.Int(0), sz), c.Le(sz, c.Big(maxLen)), c.Implies(c.Ge(n, c.Int(0)), c.Le(sz, n))))
			u.ghostSet(st, "size", SInt, ref, sz)
			u.ghostSet(st, "exact", SBool, ref, c.tFalse)
			return []Val{{T: sig.Results().At(0).Type(), L: []*Term{ref}}}, true
		},
		"encoding/binary.Read":                binRead,
		"encoding/binary.Write":               binWrite,
		"encoding/binary.bigEndian.PutUint16": putUint(2),
		"encoding/binary.bigEndian.PutUint32": putUint(4),
		"encoding/binary.bigEndian.Uint32":    getUint(4),
		"encoding/binary.bigEndian.Uint16":    getUint(2),
		"strings.HasPrefix":                   noop,
		"strings.(*Builder).String":           noop,
		"strings.(*Builder).WriteRune":        noop,
		"strings.(*Builder).WriteString":      noop,
		"unicode/utf8.DecodeRuneInString": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			r := u.freshResults(st, sig, "utf8")
			n := u.slen(args[0].L[0])
			u.Assume(c.And(c.Le(c.Int(0), r[1].L[0]), c.Le(r[1].L[0], c.Int(4)), c.Le(r[1].L[0], n), c.Implies(c.Gt(n, c.Int(0)), c.Gt(r[1].L[0], c.Int(0)))))
			return r, true
		},
		"unicode/utf16.Encode": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			v := u.freshSlice(st, types.Typ[types.Uint16])
			u.Assume(c.And(c.Ge(v.L[2], args[0].L[2]), c.Le(v.L[2], c.Mul(c.Int(2), args[0].L[2]))))
			return []Val{v}, true
		},
		"unicode/utf16.Decode": func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
			c := u.c
			v := u.freshSlice(st, types.Typ[types.Rune])
			u.Assume(c.Le(v.L[2], args[0].L[2]))
			return []Val{v}, true
		},
	}
}

// sortSort: Less and Swap may be called on any two positions below Len; the
// elements of the slice are arbitrary afterwards.
func sortSort(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
	c := u.c
	d := args[0].Dyn
	if d == nil {
		return nil, false
	}
	sl, ok := d.T.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	meth := func(name string) *ssa.Function { return u.P.Prog.LookupMethod(d.T, pkgOf(instr.Parent()), name) }
	mlen, mless, mswap := meth("Len"), meth("Less"), meth("Swap")
	if mlen == nil || mless == nil || mswap == nil {
		return nil, false
	}
	if u.dry == 0 {
		s2 := st.clone()
		it := types.Typ[types.Int]
		n, ok := u.static(fr, s2, mlen, []Val{*d}, nil, mlen.Signature, instr)
		if !ok {
			return nil, false
		}
		a, b := c.FreshRange("ci", new(big.Int), maxLen), c.FreshRange("cj", new(big.Int), maxLen)
		s2.reach = c.And(s2.reach, c.Le(c.Int(0), a), c.Lt(a, n.L[0]), c.Le(c.Int(0), b), c.Lt(b, n.L[0]))
		u.static(fr, s2, mless, []Val{*d, u.one(it, a), u.one(it, b)}, nil, mless.Signature, instr)
		u.static(fr, s2, mswap, []Val{*d, u.one(it, a), u.one(it, b)}, nil, mswap.Signature, instr)
	}
	for _, l := range leaves(sl.Elem()) {
		key, h, as := u.elemHeap(st, sl.Elem(), l)
		_, es := as.arrParts()
		old := c.Select(h, d.L[0])
		f := c.Fresh("srt$"+l.Path, as)
		u.cellFacts(st, key, f)
		i := c.Bound("i", SInt)
		sel := c.mk("select", "", es, f, i)
		u.Assume(c.Forall([]*Term{i}, c.Implies(c.Not(c.And(c.Le(d.L[1], i), c.Lt(i, c.Add(d.L[1], d.L[2])))), c.Eq(sel, c.Select(old, i))), []*Term{sel}))
		u.frameCheckIf(st, c.Gt(d.L[2], c.Int(1)), key, d.L[0])
		u.heapSet(st, key, c.Store(h, d.L[0], f), d.L[0])
	}
	return []Val{}, true
}

func (u *Unit) freshSlice(st *State, et types.Type) Val {
	c := u.c
	ref := u.newRef(st)
	for _, l := range leaves(et) {
		key, h, as := u.elemHeap(st, et, l)
		f := c.Fresh("fs"+l.Path, as)
		u.cellFacts(st, key, f)
		u.heapSet(st, key, c.Store(h, ref, f), ref)
	}
	n := c.FreshRange("fsn", new(big.Int), maxLen)
	cp := c.FreshRange("fsc", new(big.Int), maxLen)
	u.Assume(c.And(c.Le(c.Int(0), n), c.Le(n, cp), c.Le(cp, c.Big(maxLen))))
	return Val{T: types.NewSlice(et), L: []*Term{ref, c.Int(0), n, cp}}
}

func bufWrite(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
	ref := args[0].L[0]
	arr, off, n := u.sliceBytes(st, args[1])
	d := u.ghostGet(st, "wdata", arrII, ref)
	ln := u.ghostGet(st, "wlen", SInt, ref)
	c := u.c
	u.Assume(c.And(c.Le(c.Int(0), ln), c.Le(ln, c.Big(maxLen))))
	u.ghostSet(st, "wdata", arrII, ref, u.concatArr(d, ln, arr, off, n))
	u.ghostSet(st, "wlen", SInt, ref, c.Add(ln, n))
	return []Val{u.one(types.Typ[types.Int], n), u.nilErr()}, true
}

func bufWriteByte(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
	ref := args[0].L[0]
	d := u.ghostGet(st, "wdata", arrII, ref)
	ln := u.ghostGet(st, "wlen", SInt, ref)
	c := u.c
	u.Assume(c.And(c.Le(c.Int(0), ln), c.Le(ln, c.Big(maxLen))))
	u.ghostSet(st, "wdata", arrII, ref, c.Store(d, ln, args[1].L[0]))
	u.ghostSet(st, "wlen", SInt, ref, c.Add(ln, c.Int(1)))
	return []Val{u.nilErr()}, true
}

func binRead(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
	c := u.c
	d, ok := dataArg(args[2])
	if !ok {
		return nil, false
	}
	switch t := d.T.Underlying().(type) {
	case *types.Pointer:
		items, n, ok := byteLayout(t.Elem())
		if !ok {
			return nil, false
		}
		good, at := u.readerConsume(fr, st, args[0], c.Int(n), instr)
		old := u.load(st, d, t.Elem())
		nv := Val{T: t.Elem(), L: append([]*Term(nil), old.L...)}
		pos := int64(0)
		for _, it := range items {
			p := pos
			v := u.beBytes(func(k int64) *Term { return at(c.Int(p + k)) }, it.size, it.signed)
			pos += it.size
			if it.blank {
				continue
			}
			if it.arrIdx >= 0 {
				nv.L[it.leaf] = c.Store(nv.L[it.leaf], c.Int(it.arrIdx), c.Ite(good, v, c.Select(old.L[it.leaf], c.Int(it.arrIdx))))
			} else {
				nv.L[it.leaf] = c.Ite(good, v, old.L[it.leaf])
			}
		}
		if len(nv.L) == 1 && !nv.L[0].sort.isArr() && len(items) == 1 {
			// scalar
		}
		u.store(st, d, nv)
		return []Val{u.errIf(st, good)}, true
	case *types.Slice:
		items, n, ok := byteLayout(t.Elem())
		if !ok {
			return nil, false
		}
		good, at := u.readerConsume(fr, st, args[0], c.Mul(c.Int(n), d.L[2]), instr)
		ls := leaves(t.Elem())
		for li, l := range ls {
			var it *layoutItem
			pos, p := int64(0), int64(0)
			for k := range items {
				if items[k].leaf == li {
					it = &items[k]
					p = pos
				}
				pos += items[k].size
			}
			key, h, as := u.elemHeap(st, t.Elem(), l)
			_, es := as.arrParts()
			f := c.Fresh("brd", as)
			u.cellFacts(st, key, f)
			oldA := c.Select(h, d.L[0])
			i := c.Bound("i", SInt)
			sel := c.mk("select", "", es, f, i)
			in := c.And(c.Le(d.L[1], i), c.Lt(i, c.Add(d.L[1], d.L[2])))
			if it != nil && it.arrIdx < 0 && !it.blank {
				v := u.beBytes(func(k int64) *Term {
					return at(c.Add(c.Mul(c.Int(n), c.Sub(i, d.L[1])), c.Int(p+k)))
				}, it.size, it.signed)
				u.Assume(c.Forall([]*Term{i}, c.And(c.Implies(c.And(good, in), c.Eq(sel, v)), c.Implies(c.Not(c.And(good, in)), c.Eq(sel, c.Select(oldA, i)))), []*Term{sel}))
			} else {
				u.Assume(c.Forall([]*Term{i}, c.Implies(c.Not(c.And(good, in)), c.Eq(sel, c.Select(oldA, i))), []*Term{sel}))
			}
			u.frameCheckIf(st, c.Gt(d.L[2], c.Int(0)), key, d.L[0])
			u.heapSet(st, key, c.Store(h, d.L[0], f), d.L[0])
		}
		return []Val{u.errIf(st, good)}, true
	}
	return nil, false
}

func binWrite(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
	c := u.c
	d, ok := dataArg(args[2])
	if !ok {
		return nil, false
	}
	v := d
	t := d.T
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
		v = u.load(st, d, t)
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		items, n, ok := byteLayout(sl.Elem())
		if !ok || len(items) != 1 {
			if !ok {
				return nil, false
			}
			// length only
			tot := c.Mul(c.Int(n), v.L[2])
			good, _ := u.writerAppend(st, args[0], tot, func(dd, base *Term) *Term {
				f := c.Fresh("bw", arrII)
				i := c.Bound("i", SInt)
				sel := c.mk("select", "", SInt, f, i)
				u.Assume(c.Forall([]*Term{i}, c.Implies(c.Lt(i, base), c.Eq(sel, c.Select(dd, i))), []*Term{sel}))
				return f
			})
			return []Val{u.errIf(st, good)}, true
		}
		_, h, _ := u.elemHeap(st, sl.Elem(), leaves(sl.Elem())[0])
		src := c.Select(h, v.L[0])
		tot := c.Mul(c.Int(n), v.L[2])
		good, _ := u.writerAppend(st, args[0], tot, func(dd, base *Term) *Term {
			f := c.Fresh("bw", arrII)
			i := c.Bound("i", SInt)
			sel := c.mk("select", "", SInt, f, i)
			rel := c.Sub(i, base)
			in := c.And(c.Le(base, i), c.Lt(i, c.Add(base, tot)))
			e := c.Select(src, c.Add(v.L[1], c.Div(rel, c.Int(n))))
			// byte number rel%n from the most significant
			var b *Term
			for k := int64(0); k < n; k++ {
				sh := new(big.Int).Lsh(big.NewInt(1), uint(8*(n-1-k)))
				x := c.Mod(c.Div(e, c.Big(sh)), c.Int(256))
				if b == nil {
					b = x
				} else {
					b = c.Ite(c.Eq(c.Mod(rel, c.Int(n)), c.Int(k)), x, b)
				}
			}
			if n == 1 {
				u.Assume(c.Forall([]*Term{i}, c.And(c.Implies(in, c.Eq(sel, b)), c.Implies(c.Not(in), c.Eq(sel, c.Select(dd, i)))), []*Term{sel}))
			} else {
				u.Assume(c.Forall([]*Term{i}, c.And(c.Implies(in, c.And(c.Le(c.Int(0), sel), c.Le(sel, c.Int(255)))), c.Implies(c.Not(in), c.Eq(sel, c.Select(dd, i)))), []*Term{sel}))
				// the same, from the elements' side
				j := c.Bound("j", SInt)
				ej := c.mk("select", "", SInt, src, j)
				at := c.Add(base, c.Mul(c.Int(n), c.Sub(j, v.L[1])))
				var eqs []*Term
				for k := int64(0); k < n; k++ {
					sh := new(big.Int).Lsh(big.NewInt(1), uint(8*(n-1-k)))
					eqs = append(eqs, c.Eq(c.Select(f, c.Add(at, c.Int(k))), c.Mod(c.Div(ej, c.Big(sh)), c.Int(256))))
				}
				u.Assume(c.Forall([]*Term{j}, c.Implies(c.And(c.Le(v.L[1], j), c.Lt(j, c.Add(v.L[1], v.L[2]))), c.And(eqs...)), []*Term{ej}))
			}
			return f
		})
		return []Val{u.errIf(st, good)}, true
	}
	items, n, ok := byteLayout(t)
	if !ok {
		return nil, false
	}
	good, _ := u.writerAppend(st, args[0], c.Int(n), func(dd, base *Term) *Term {
		r := dd
		pos := int64(0)
		for _, it := range items {
			x := v.L[it.leaf]
			if it.arrIdx >= 0 {
				x = c.Select(x, c.Int(it.arrIdx))
			}
			if it.blank {
				x = c.Int(0)
			}
			for k := int64(0); k < it.size; k++ {
				sh := new(big.Int).Lsh(big.NewInt(1), uint(8*(it.size-1-k)))
				r = c.Store(r, c.Add(base, c.Int(pos+k)), c.Mod(c.Div(x, c.Big(sh)), c.Int(256)))
			}
			pos += it.size
		}
		return r
	})
	return []Val{u.errIf(st, good)}, true
}

func putUint(n int64) model {
	return func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
		c := u.c
		b := args[len(args)-2]
		x := args[len(args)-1].L[0]
		u.Assert(st, "bounds", fmt.Sprintf("PutUint%d", 8*n), c.Le(c.Int(n), b.L[2]))
		key := u.keyOf('E', "uint8", leaves(types.Typ[types.Uint8])[0])
		h := u.heapGet(st, key, arrSort(SInt, arrII))
		a := c.Select(h, b.L[0])
		for k := int64(0); k < n; k++ {
			sh := new(big.Int).Lsh(big.NewInt(1), uint(8*(n-1-k)))
			a = c.Store(a, c.Add(b.L[1], c.Int(k)), c.Mod(c.Div(x, c.Big(sh)), c.Int(256)))
		}
		u.frameCheck(st, key, b.L[0])
		u.heapSet(st, key, c.Store(h, b.L[0], a), b.L[0])
		return []Val{}, true
	}
}

func getUint(n int64) model {
	return func(u *Unit, fr *Frame, st *State, args []Val, sig *types.Signature, instr ssa.Instruction) ([]Val, bool) {
		c := u.c
		b := args[len(args)-1]
		u.Assert(st, "bounds", fmt.Sprintf("Uint%d", 8*n), c.Le(c.Int(n), b.L[2]))
		arr, off, _ := u.sliceBytes(st, b)
		v := u.beBytes(func(k int64) *Term {
			t := c.Select(arr, c.Add(off, c.Int(k)))
			t.SetRange(new(big.Int), big.NewInt(255))
			if u.once(t.id) {
				u.Assume(c.And(c.mk("<=", "", SBool, c.Int(0), t), c.mk("<=", "", SBool, t, c.Int(255))))
			}
			return t
		}, n, false)
		return []Val{u.one(sig.Results().At(0).Type(), v)}, true
	}
}
