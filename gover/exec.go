package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is the symbolic program state at a point.
type State struct {
	heap  map[string]*Term
	epoch int
	alloc *Term
	reach *Term
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{heap: h, epoch: s.epoch, alloc: s.alloc, reach: s.reach}
}

// Oblig is one proof obligation.
type Oblig struct {
	Name   string
	Kind   string
	Fn     string
	Pos    token.Position
	Goal   *Term   // must be valid (already includes the path condition)
	Alts   []*Term // alternatives: one of them must be valid (termination measures)
	NA     int     // number of assumptions in scope
	Cand   string  // candidate invariant key ("" for real obligations)
	Expect bool    // for cover: must NOT be provable
	Result string
	By     string
	Secs   float64
	Detail string
	Model  string // candidate counterexample (values of the parameters)
}

type storeRec struct {
	key string
	ref *Term
}

// Unit is the verification of one function.
type Unit struct {
	c           *Ctx
	P           *Program
	fn          *ssa.Function
	con         *Contract
	assume      []*Term
	obls        []*Oblig
	dry         int
	logs        []*[]storeRec
	factOK      map[int]bool
	factLog     []factEnt
	dropped     map[string]bool
	cands       map[string]bool
	unsup       []string
	trusted     map[string]bool
	used        map[string]bool // contracts relied on
	inlined     map[string]bool
	entry       *State
	alloc0      *Term
	nepoch      int
	frames      []frameAllowed // allowed store targets
	noFrame     bool
	depth       int
	stack       []*ssa.Function
	nameCnt     map[string]int
	baseAlloc   map[string]*Term // heap base const name -> alloc when created
	loopMods    map[string]map[string]bool
	instr       ssa.Instruction
	curFn       *ssa.Function
	entryVals   map[string]Val
	loopSeen    map[string]bool
	budget      int
	noCand      bool
	needAxioms  bool
	topFrame    *Frame
	topOnly     bool
	paramLookup func(string) (Val, bool)
}

type frameAllowed struct {
	key string // heap key prefix ("" = any)
	ref *Term  // nil = any ref
}

type unsupportedError struct{ msg string }

type factEnt struct{ id, na int }

// once reports whether the facts for id still have to be asserted.
func (u *Unit) once(id int) bool {
	if u.factOK[id] {
		return false
	}
	u.factOK[id] = true
	u.factLog = append(u.factLog, factEnt{id, len(u.assume)})
	return true
}

// truncate drops the assumptions added since n.
func (u *Unit) truncate(n int) {
	u.assume = u.assume[:n]
	for len(u.factLog) > 0 && u.factLog[len(u.factLog)-1].na >= n {
		delete(u.factOK, u.factLog[len(u.factLog)-1].id)
		u.factLog = u.factLog[:len(u.factLog)-1]
	}
}

func (u *Unit) unsupported(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	panic(unsupportedError{msg})
}

func (u *Unit) Assume(t *Term) {
	if t.isTrue() {
		return
	}
	u.assume = append(u.assume, t)
}

func (u *Unit) pos() token.Position {
	if u.instr != nil {
		p := u.instr.Pos()
		if p.IsValid() {
			return u.P.Fset.Position(p)
		}
		// look for a nearby position in the block
		if b := u.instr.Block(); b != nil {
			seen := false
			for _, in := range b.Instrs {
				if in == u.instr {
					seen = true
				}
				if in.Pos().IsValid() {
					p = in.Pos()
					if seen {
						break
					}
				}
			}
			if p.IsValid() {
				return u.P.Fset.Position(p)
			}
		}
	}
	if u.curFn != nil && u.curFn.Pos().IsValid() {
		return u.P.Fset.Position(u.curFn.Pos())
	}
	return token.Position{}
}

func (u *Unit) Assert(st *State, kind, text string, cond *Term) {
	goal := u.c.Implies(st.reach, cond)
	if u.dry > 0 {
		return
	}
	fn := u.P.fnName(u.fn)
	in := ""
	if u.curFn != nil && u.curFn != u.fn {
		in = " (in " + u.P.fnName(u.curFn) + ")"
	}
	base := fn + ": " + kind + " " + text + in
	u.nameCnt[base]++
	name := base
	if n := u.nameCnt[base]; n > 1 {
		name = fmt.Sprintf("%s #%d", base, n)
	}
	o := &Oblig{Name: name, Kind: kind, Fn: fn, Pos: u.pos(), Goal: u.c.hints(goal), NA: len(u.assume)}
	u.obls = append(u.obls, o)
	if goal.isTrue() {
		o.Result, o.By = "unsat", "simplifier"
		return
	}
	// later obligations may rely on this one
	u.Assume(goal)
}

// ---- heap ------------------------------------------------------------

func (u *Unit) heapGet(st *State, key string, s Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	name := fmt.Sprintf("H%d$%s", st.epoch, key)
	if t := u.c.Named(name, s); u.once(-t.id - 1) {
		a := u.alloc0
		if st.epoch != 0 && u.baseAlloc[fmt.Sprintf("epoch%d", st.epoch)] != nil {
			a = u.baseAlloc[fmt.Sprintf("epoch%d", st.epoch)]
		}
		u.heapFacts(t, key, a)
	}
	return u.c.Named(name, s)
}

// heapFacts asserts that every cell of a fresh heap array is well typed.
func (u *Unit) heapFacts(h *Term, key string, alloc *Term) { u.heapFacts1(h, key, alloc, true) }

func (u *Unit) heapFacts1(h *Term, key string, alloc *Term, outer bool) {
	l, ok := u.P.keyLeaf[key]
	if !ok {
		return
	}
	c := u.c
	// descend through arrays
	var vars []*Term
	t := h
	for t.sort.isArr() {
		k, _ := t.sort.arrParts()
		v := c.Bound("x", k)
		vars = append(vars, v)
		t = c.mk("select", "", func() Sort { _, v := t.sort.arrParts(); return v }(), t, v)
	}
	var f *Term
	switch l.Kind {
	case lkInt:
		lo, hi, _, _ := intRange(l.T)
		f = c.And(c.mk("<=", "", SBool, c.Big(lo), t), c.mk("<=", "", SBool, t, c.Big(hi)))
	case lkRef, lkPay:
		f = c.mk("<=", "", SBool, t, alloc)
		if outer && len(vars) > 0 && key[0] != 'G' {
			f = c.Implies(u.isOldRef(vars[0], alloc), f)
		}
		if l.Kind == lkRef {
			f = c.And(f, c.mk("<=", "", SBool, c.Int(0), t))
		}
	case lkSliceRef:
		f = c.mk("<=", "", SBool, t, alloc)
		if outer && len(vars) > 0 && key[0] != 'G' {
			f = c.Implies(u.isOldRef(vars[0], alloc), f)
		}
	case lkSliceOff, lkSliceLen, lkSliceCap:
		f = c.And(c.mk("<=", "", SBool, c.Int(0), t), c.mk("<=", "", SBool, t, c.Big(maxLen)))
	case lkTag:
		f = c.mk("<=", "", SBool, c.Int(0), t)
	default:
		return
	}
	if len(vars) == 0 {
		u.Assume(f)
		return
	}
	u.Assume(c.Forall(vars, f, []*Term{t}))
}

func (u *Unit) heapSet(st *State, key string, v *Term, ref *Term) {
	st.heap[key] = v
	for _, l := range u.logs {
		*l = append(*l, storeRec{key, ref})
	}
}

// frameCheck generates the modifies obligation for a store to ref.
func (u *Unit) frameCheck(st *State, key string, ref *Term) {
	if u.noFrame || u.dry > 0 {
		return
	}
	c := u.c
	var alts []*Term
	if ref != nil {
		// fresh object
		alts = append(alts, c.And(c.Gt(ref, u.alloc0)))
		// embedded array of a fresh object: ref = -(r*256+k)-1
		alts = append(alts, c.Lt(ref, c.Neg(c.Add(c.Mul(c.Add(u.alloc0, c.Int(1)), c.Int(256)), c.Int(0)))))
	}
	for _, f := range u.frames {
		if f.key != "" && !strings.HasPrefix(key, f.key) {
			continue
		}
		if f.ref == nil {
			return
		}
		if ref != nil {
			alts = append(alts, c.Eq(ref, f.ref))
		}
	}
	u.Assert(st, "frame", "modifies "+key, c.Or(alts...))
}

func (u *Unit) keyOf(kind byte, root string, l Leaf) string {
	key := string(kind) + ":" + root + ":" + l.Path
	if _, ok := u.P.keyLeaf[key]; !ok {
		u.P.keyLeaf[key] = l
	}
	return key
}

// emb is the block reference of the array stored inside an object.
func (u *Unit) emb(ref *Term, path string) *Term {
	id := u.P.pathID(path)
	return u.c.Sub(u.c.Int(-1-id), u.c.Mul(u.c.Int(256), ref))
}

func (u *Unit) globalRef(g string) *Term {
	id := u.P.globalID(g)
	b := new(big.Int).Lsh(big.NewInt(1), 61)
	b.Add(b, big.NewInt(id))
	return u.c.Big(b.Neg(b))
}

// pathLeaf splits leaf paths of an object into those stored in the object heap
// and those inside embedded arrays.
func splitArr(path string) (string, string, bool) {
	i := strings.Index(path, "[]")
	if i < 0 {
		return path, "", false
	}
	return path[:i], path[i+2:], true
}

// loadCell loads a value of type T at address a.
func (u *Unit) loadCell(st *State, a *Addr) Val {
	out := Val{T: a.T}
	for _, l := range leaves(a.T) {
		out.L = append(out.L, u.loadLeaf(st, a, l))
	}
	u.sliceFacts(st, out)
	return out
}

func (u *Unit) elemLeafType(a *Addr, full string, l Leaf) Leaf {
	return l
}

// locate returns heap key, heap sort and the index chain for a leaf.
func (u *Unit) locate(a *Addr, l Leaf) (key string, hs Sort, idx []*Term, kl Leaf) {
	full := a.Path + l.Path
	switch a.Kind {
	case 'O', 'G':
		if pre, post, ok := splitArr(full); ok {
			// the array lives in the element heap at an embedded reference
			et := u.arrElemAt(a.RT, pre)
			el := findLeaf(et, post)
			ref := a.Ref
			if a.Kind == 'G' {
				ref = u.globalRef(a.G + pre)
			} else {
				ref = u.emb(a.Ref, pre)
			}
			key = u.keyOf('E', typeKey(et), el)
			hs = arrSort(SInt, arrSort(SInt, el.Sort))
			idx = append([]*Term{ref}, a.AIdx...)
			return key, hs, idx, el
		}
		if a.Kind == 'G' {
			gl := findLeaf(a.RT, full)
			key = u.keyOf('G', a.G, gl)
			return key, gl.Sort, nil, gl
		}
		ol := findLeaf(a.RT, full)
		key = u.keyOf('O', typeKey(a.RT), ol)
		return key, arrSort(SInt, ol.Sort), []*Term{a.Ref}, ol
	case 'E':
		el := findLeaf(a.RT, full)
		key = u.keyOf('E', typeKey(a.RT), el)
		return key, arrSort(SInt, arrSort(SInt, el.Sort)), append([]*Term{a.Ref, a.Idx}, a.AIdx...), el
	}
	panic("locate")
}

func findLeaf(t types.Type, path string) Leaf {
	for _, l := range leaves(t) {
		if l.Path == path {
			return l
		}
	}
	panic(fmt.Sprintf("findLeaf %s %q", t, path))
}

// arrElemAt follows a field path to an array type and returns its element type.
func (u *Unit) arrElemAt(t types.Type, path string) types.Type {
	for path != "" {
		p := path[1:]
		i := strings.IndexAny(p, ".[")
		name := p
		rest := ""
		if i >= 0 {
			name, rest = p[:i], p[i:]
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic("arrElemAt: " + t.String() + " " + path)
		}
		found := false
		for j := 0; j < s.NumFields(); j++ {
			if fieldName(s, j) == name {
				t = s.Field(j).Type()
				found = true
				break
			}
		}
		if !found {
			panic("arrElemAt: no field " + name)
		}
		path = rest
	}
	return t.Underlying().(*types.Array).Elem()
}

func (u *Unit) loadLeaf(st *State, a *Addr, l Leaf) *Term {
	key, hs, idx, kl := u.locate(a, l)
	t := u.heapGet(st, key, hs)
	for _, i := range idx {
		t = u.c.Select(t, i)
	}
	u.leafFacts(st, kl, t)
	return t
}

func (u *Unit) storeCell(st *State, a *Addr, v Val) {
	ls := leaves(a.T)
	if len(ls) != len(v.L) {
		panic(fmt.Sprintf("storeCell: leaf mismatch %s (%d) vs %s (%d)", a.T, len(ls), v.T, len(v.L)))
	}
	if v.A != nil && len(ls) == 1 && ls[0].Kind == lkRef {
		if !(a.Kind == 'O' && a.T != nil && u.localOnly(a)) {
			u.unsupported("interior pointer stored to memory")
		}
	}
	u.checkFuncStore(a, v)
	for i, l := range ls {
		u.storeLeaf(st, a, l, v.L[i])
	}
}

func (u *Unit) localOnly(a *Addr) bool { return false }

func (u *Unit) checkFuncStore(a *Addr, v Val) {}

func (u *Unit) storeLeaf(st *State, a *Addr, l Leaf, v *Term) {
	key, hs, idx, _ := u.locate(a, l)
	h := u.heapGet(st, key, hs)
	if l.Kind == lkReal && v.sort == SInt {
		v = u.c.ToReal(v)
	}
	var ref *Term
	if len(idx) > 0 {
		ref = idx[0]
	}
	u.frameCheck(st, key, ref)
	u.heapSet(st, key, u.storeN(h, idx, v), ref)
}

func (u *Unit) storeN(h *Term, idx []*Term, v *Term) *Term {
	if len(idx) == 0 {
		return v
	}
	if len(idx) == 1 {
		return u.c.Store(h, idx[0], v)
	}
	return u.c.Store(h, idx[0], u.storeN(u.c.Select(h, idx[0]), idx[1:], v))
}

// leafFacts asserts the type facts of a loaded leaf once.
func (u *Unit) leafFacts(st *State, l Leaf, t *Term) {
	if t.bound {
		return
	}
	if t.sort.isArr() {
		if (t.op == "select" || t.op == "const") && l.Kind == lkInt && u.once(t.id) {
			c := u.c
			lo, hi, _, _ := intRange(l.T)
			var vars []*Term
			x := t
			for x.sort.isArr() {
				k, e := x.sort.arrParts()
				v := c.Bound("x", k)
				vars = append(vars, v)
				x = c.mk("select", "", e, x, v)
			}
			u.Assume(c.Forall(vars, c.And(c.mk("<=", "", SBool, c.Big(lo), x), c.mk("<=", "", SBool, x, c.Big(hi))), []*Term{x}))
		}
		return
	}
	switch l.Kind {
	case lkInt:
		lo, hi, _, _ := intRange(l.T)
		switch t.op {
		case "select", "const":
			t.SetRange(lo, hi)
			if u.once(t.id) {

				u.Assume(u.c.mk("<=", "", SBool, u.c.Big(lo), t))
				u.Assume(u.c.mk("<=", "", SBool, t, u.c.Big(hi)))
			}
		}
	case lkRef:
		if t.op == "select" || t.op == "const" {
			if u.once(t.id) {

				u.Assume(u.c.mk("<=", "", SBool, u.c.Int(0), t))
				u.Assume(u.c.mk("<=", "", SBool, t, st.alloc))
			}
		}
	case lkSliceRef:
		if t.op == "select" || t.op == "const" {
			if u.once(t.id) {

				u.Assume(u.isOldRef(t, st.alloc))
				if _, ok := u.c.old[t.id]; !ok {
					u.c.old[t.id] = st.alloc
				}
			}
		}
	case lkSliceOff, lkSliceLen, lkSliceCap:
		if t.op == "select" || t.op == "const" {
			t.SetRange(new(big.Int), maxLen)
			if u.once(t.id) {

				u.Assume(u.c.mk("<=", "", SBool, u.c.Int(0), t))
				u.Assume(u.c.mk("<=", "", SBool, t, u.c.Big(maxLen)))
			}
		}
	case lkTag:
		if t.op == "select" || t.op == "const" {
			t.SetRange(new(big.Int), nil)
			if u.once(t.id) {

				u.Assume(u.c.mk("<=", "", SBool, u.c.Int(0), t))
			}
		}
	}
}

// sliceFacts asserts len<=cap and nil facts for every slice inside v.
func (u *Unit) sliceFacts(st *State, v Val) {
	ls := leaves(v.T)
	for i, l := range ls {
		if l.Kind == lkSliceRef && l.Arr == 0 && i+3 < len(v.L) {
			r, ln, cp := v.L[i], v.L[i+2], v.L[i+3]
			if ln.bound || r.bound {
				continue
			}
			if ln.op != "select" && ln.op != "const" {
				continue
			}
			f := u.c.And(u.c.Le(ln, cp), u.c.Implies(u.c.Eq(r, u.c.Int(0)), u.c.Eq(cp, u.c.Int(0))))
			if u.once(f.id) {

				u.Assume(f)
			}
		}
	}
}

// newVal makes an unconstrained (well typed) value.
func (u *Unit) newVal(st *State, name string, t types.Type) Val {
	v := Val{T: t}
	for _, l := range leaves(t) {
		x := u.c.Fresh(name+l.Path, l.Sort)
		u.leafFacts(st, l, x)
		v.L = append(v.L, x)
	}
	u.sliceFacts(st, v)
	return v
}

func (u *Unit) zero(t types.Type) Val {
	v := Val{T: t}
	for _, l := range leaves(t) {
		v.L = append(v.L, zeroLeaf(u.c, l))
	}
	return v
}

// ptrAddr turns a pointer value into an address.
func (u *Unit) ptrAddr(st *State, v Val) *Addr {
	if v.A != nil {
		return v.A
	}
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		panic("ptrAddr: " + v.T.String())
	}
	et := pt.Elem()
	if at, ok := et.Underlying().(*types.Array); ok {
		_ = at
		// pointer to array: block reference; whole-array access is handled separately
		return &Addr{Kind: 'A', RT: et, Ref: v.L[0], T: et}
	}
	return &Addr{Kind: 'O', RT: et, Ref: v.L[0], T: et}
}

func (u *Unit) load(st *State, p Val, t types.Type) Val {
	a := u.ptrAddr(st, p)
	if a.Kind == 'A' {
		return u.loadArr(st, a)
	}
	return u.loadCell(st, a)
}

func (u *Unit) loadArr(st *State, a *Addr) Val {
	at := a.RT.Underlying().(*types.Array)
	out := Val{T: a.RT}
	for _, l := range leaves(at.Elem()) {
		key := u.keyOf('E', typeKey(at.Elem()), l)
		out.L = append(out.L, u.c.Select(u.heapGet(st, key, arrSort(SInt, arrSort(SInt, l.Sort))), a.Ref))
	}
	return out
}

func (u *Unit) store(st *State, p Val, v Val) {
	a := u.ptrAddr(st, p)
	if a.Kind == 'A' {
		at := a.RT.Underlying().(*types.Array)
		for i, l := range leaves(at.Elem()) {
			key := u.keyOf('E', typeKey(at.Elem()), l)
			hs := arrSort(SInt, arrSort(SInt, l.Sort))
			u.frameCheck(st, key, a.Ref)
			u.heapSet(st, key, u.c.Store(u.heapGet(st, key, hs), a.Ref, v.L[i]), a.Ref)
		}
		return
	}
	u.storeCell(st, a, v)
}

// newRef allocates a reference.
func (u *Unit) newRef(st *State) *Term {
	st.alloc = u.c.Add(st.alloc, u.c.Int(1))
	return st.alloc
}

func (u *Unit) allocObj(st *State, t types.Type) Val {
	ref := u.newRef(st)
	pv := Val{T: types.NewPointer(t), L: []*Term{ref}}
	if at, ok := t.Underlying().(*types.Array); ok {
		u.initBlock(st, at.Elem(), ref)
		return pv
	}
	a := &Addr{Kind: 'O', RT: t, Ref: ref, T: t}
	if t.String() == "bytes.Buffer" {
		u.ghostSet(st, "wlen", SInt, ref, u.c.Int(0))
		u.ghostSet(st, "wexact", SBool, ref, u.c.tTrue)
	}
	ls := leaves(t)
	done := map[string]bool{}
	for _, l := range ls {
		if pre, _, ok := splitArr(l.Path); ok {
			if done[pre] {
				continue
			}
			done[pre] = true
			u.initBlock(st, u.arrElemAt(t, pre), u.emb(ref, pre))
			continue
		}
		key, hs, idx, _ := u.locate(a, l)
		h := u.heapGet(st, key, hs)
		u.heapSet(st, key, u.storeN(h, idx, zeroLeaf(u.c, l)), ref)
	}
	return pv
}

func (u *Unit) initBlock(st *State, et types.Type, ref *Term) {
	for _, l := range leaves(et) {
		key := u.keyOf('E', typeKey(et), l)
		hs := arrSort(SInt, arrSort(SInt, l.Sort))
		h := u.heapGet(st, key, hs)
		as := arrSort(SInt, l.Sort)
		u.heapSet(st, key, u.c.Store(h, ref, u.c.ConstArr(as, zeroLeaf(u.c, l))), ref)
	}
}

func (u *Unit) elemAddr(et types.Type, ref, idx *Term) *Addr {
	return &Addr{Kind: 'E', RT: et, Ref: ref, Idx: idx, T: et}
}

// ---- merging -----------------------------------------------------------

type inEdge struct {
	from *ssa.BasicBlock
	st   *State
}

func (u *Unit) mergeStates(ins []*State, hint string) *State {
	if len(ins) == 1 {
		return ins[0].clone()
	}
	c := u.c
	out := &State{heap: map[string]*Term{}}
	var rs []*Term
	for _, s := range ins {
		rs = append(rs, s.reach)
	}
	out.reach = c.Or(rs...)
	// alloc
	out.alloc = ins[len(ins)-1].alloc
	same := true
	for _, s := range ins {
		if s.alloc != out.alloc {
			same = false
		}
	}
	if !same {
		a := c.Fresh("alloc_"+hint, SInt)
		for _, s := range ins {
			u.Assume(c.Implies(s.reach, c.Eq(a, s.alloc)))
			least := true
			for _, s2 := range ins {
				if !c.allocLe(s.alloc, s2.alloc, 6) {
					least = false
				}
			}
			if least {
				c.lower[a.id] = []*Term{s.alloc}
			}
		}
		if c.lower[a.id] == nil {
			c.lower[a.id] = []*Term{u.alloc0}
		}
		u.Assume(c.Ge(a, u.alloc0))
		out.alloc = a
	}
	// epochs
	out.epoch = ins[0].epoch
	for _, s := range ins {
		if s.epoch != out.epoch {
			out.epoch = -1
		}
	}
	keys := map[string]bool{}
	for _, s := range ins {
		for k := range s.heap {
			keys[k] = true
		}
	}
	if out.epoch == -1 {
		u.nepoch++
		out.epoch = u.nepoch
		u.baseAlloc[fmt.Sprintf("epoch%d", out.epoch)] = out.alloc
		for k := range u.P.keyLeaf {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var first *Term
		same := true
		srt := u.heapSort(k)
		if srt == "" {
			// only known in some states
			for _, s := range ins {
				if t, ok := s.heap[k]; ok {
					srt = t.sort
				}
			}
			if srt == "" {
				continue
			}
		}
		var ts []*Term
		for _, s := range ins {
			t := u.heapGet(s, k, srt)
			ts = append(ts, t)
			if first == nil {
				first = t
			} else if first != t {
				same = false
			}
		}
		if same {
			out.heap[k] = first
			continue
		}
		if !srt.isArr() {
			t := ts[len(ts)-1]
			for i := len(ts) - 2; i >= 0; i-- {
				t = c.Ite(ins[i].reach, ts[i], t)
			}
			out.heap[k] = t
			continue
		}
		var conds []*Term
		for _, s := range ins {
			conds = append(conds, s.reach)
		}
		if m := c.mergeArr(conds, ts); m != nil {
			out.heap[k] = m
			continue
		}
		h := c.Fresh("Hm$"+k, srt)
		for i, s := range ins {
			u.Assume(c.Implies(s.reach, c.Eq(h, ts[i])))
		}
		out.heap[k] = h
	}
	return out
}

func (u *Unit) heapSort(key string) Sort {
	l, ok := u.P.keyLeaf[key]
	if !ok {
		return ""
	}
	switch key[0] {
	case 'O':
		return arrSort(SInt, l.Sort)
	case 'E':
		return arrSort(SInt, arrSort(SInt, l.Sort))
	case 'G', 'M', '$':
		return l.Sort
	}
	return ""
}

// mergeArr joins arrays which differ by a few stores over a common base; the
// result is exact: every index written in some branch gets the value it has in
// the branch taken. It returns nil if there is no common base.
func (c *Ctx) mergeArr(conds []*Term, ts []*Term) *Term {
	const limit = 48
	if len(ts) > 12 {
		return nil
	}
	chain := func(t *Term) []*Term {
		var r []*Term
		for n := 0; ; n++ {
			r = append(r, t)
			if t.op != "store" || n > limit {
				return r
			}
			t = t.args[0]
		}
	}
	ch := make([][]*Term, len(ts))
	for i, t := range ts {
		ch[i] = chain(t)
	}
	in := map[int]int{}
	for _, x := range ch {
		for _, t := range x {
			in[t.id]++
		}
	}
	var base *Term
	for _, t := range ch[0] {
		if in[t.id] == len(ts) {
			base = t
			break
		}
	}
	if base == nil {
		return nil
	}
	var idx []*Term
	seen := map[int]bool{}
	for _, x := range ch {
		var here []*Term
		for _, t := range x {
			if t == base {
				break
			}
			if !seen[t.args[1].id] {
				seen[t.args[1].id] = true
				here = append(here, t.args[1])
			}
		}
		for k := len(here) - 1; k >= 0; k-- {
			idx = append(idx, here[k])
		}
	}
	if len(idx) > limit {
		return nil
	}
	_, vs := base.sort.arrParts()
	r := base
	for _, i := range idx {
		var xs []*Term
		same := true
		for _, t := range ts {
			xs = append(xs, c.Select(t, i))
			if xs[len(xs)-1] != xs[0] {
				same = false
			}
		}
		x := xs[len(xs)-1]
		switch {
		case same:
		case vs.isArr():
			m := c.mergeArr(conds, xs)
			if m == nil {
				for k := len(xs) - 2; k >= 0; k-- {
					x = c.mk("ite", "", vs, conds[k], xs[k], x)
				}
				m = x
			}
			x = m
		default:
			for k := len(xs) - 2; k >= 0; k-- {
				x = c.Ite(conds[k], xs[k], x)
			}
		}
		r = c.Store(r, i, x)
	}
	return r
}

func (u *Unit) mergeVals(conds []*Term, vs []Val, t types.Type) Val {
	out := Val{T: t}
	n := len(vs)
	last := vs[n-1]
	for k := range last.L {
		x := last.L[k]
		for i := n - 2; i >= 0; i-- {
			if k >= len(vs[i].L) {
				panic("mergeVals leaf mismatch " + t.String())
			}
			if x.sort.isArr() && x != vs[i].L[k] {
				if m := u.c.mergeArr([]*Term{conds[i], nil}, []*Term{vs[i].L[k], x}); m != nil {
					x = m
					continue
				}
				f := u.c.Fresh("marr", x.sort)
				u.Assume(u.c.Implies(conds[i], u.c.Eq(f, vs[i].L[k])))
				u.Assume(u.c.Implies(u.c.Not(conds[i]), u.c.Eq(f, x)))
				x = f
				continue
			}
			x = u.c.Ite(conds[i], vs[i].L[k], x)
		}
		out.L = append(out.L, x)
	}
	// keep static knowledge if it agrees
	agree := true
	for _, v := range vs {
		if v.Fn != last.Fn || len(v.Bnd) != len(last.Bnd) || v.Blt != last.Blt {
			agree = false
		}
	}
	if agree {
		out.Fn, out.Bnd, out.Blt = last.Fn, last.Bnd, last.Blt
	}
	// addresses
	var as []*Addr
	for _, v := range vs {
		if v.A != nil {
			as = append(as, v.A)
		}
	}
	if len(as) > 0 {
		ok := len(as) == n
		for _, a := range as {
			b := as[0]
			if a.Kind != b.Kind || a.RT != b.RT || a.Path != b.Path || a.G != b.G || len(a.AIdx) != len(b.AIdx) {
				ok = false
			}
		}
		if !ok {
			// a nil alternative is fine only if never dereferenced; keep it strict
			u.unsupported("merge of incompatible interior pointers")
		}
		m := *as[n-1]
		for i := n - 2; i >= 0; i-- {
			if m.Ref != nil {
				m.Ref = u.c.Ite(conds[i], as[i].Ref, m.Ref)
			}
			if m.Idx != nil {
				m.Idx = u.c.Ite(conds[i], as[i].Idx, m.Idx)
			}
			if len(m.AIdx) > 0 {
				u.unsupported("merge of nested array pointers")
			}
		}
		out.A = &m
	}
	// dynamic interface values
	sameDyn := last.Dyn != nil
	for _, v := range vs {
		if v.Dyn != last.Dyn {
			sameDyn = false
		}
	}
	if sameDyn {
		out.Dyn = last.Dyn
	}
	if isConcreteIter(vs) {
		out.It = last.It
	}
	return out
}

func isConcreteIter(vs []Val) bool {
	for _, v := range vs {
		if v.It == nil || v.It != vs[0].It {
			return false
		}
	}
	return true
}

// ---- frames and function bodies -----------------------------------------

// Frame is one activation.
type Frame struct {
	fn         *ssa.Function
	env        map[ssa.Value]Val
	loops      *loopInfo
	con        *Contract // loop contracts
	rets       []retEdge
	path       string
	caller     *Frame
	defers     []*ssa.Defer
	invSt      map[*ssa.BasicBlock]*loopInst
	entrySt    *State
	entryAlloc *Term
}

type retEdge struct {
	st   *State
	vals []Val
	b    *ssa.BasicBlock
}

func (u *Unit) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return u.constVal(x)
	case *ssa.Global:
		et := x.Type().(*types.Pointer).Elem()
		g := u.P.globalName(x)
		if _, ok := et.Underlying().(*types.Array); ok {
			u.globalInit(st, x)
			return Val{T: x.Type(), L: []*Term{u.globalRef(g)}}
		}
		return Val{T: x.Type(), L: []*Term{u.globalRef(g)}, A: &Addr{Kind: 'G', RT: et, G: g, T: et}}
	case *ssa.Function:
		return Val{T: x.Type(), L: []*Term{u.c.Int(u.P.funcID(x))}, Fn: x}
	case *ssa.Builtin:
		return Val{T: x.Type(), Blt: x.Name()}
	}
	if w, ok := fr.env[v]; ok {
		return w
	}
	u.unsupported("use of undefined value %s in %s", v.Name(), fr.fn)
	return Val{}
}

func (u *Unit) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return u.zero(t)
	}
	switch {
	case isBool(t):
		return Val{T: t, L: []*Term{u.c.Bool(constant.BoolVal(x.Value))}}
	case isString(t):
		s := constant.StringVal(x.Value)
		tm := u.c.StrConst(s)
		u.strFacts(tm)
		return Val{T: t, L: []*Term{tm}}
	case isInteger(t):
		v := constant.ToInt(x.Value)
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic("const " + x.String())
		}
		return Val{T: t, L: []*Term{u.c.Big(b)}}
	case isFloat(t):
		v := constant.ToFloat(x.Value)
		r, ok := new(big.Rat).SetString(v.ExactString())
		if !ok {
			f, _ := constant.Float64Val(v)
			r = new(big.Rat)
			r.SetFloat64(f)
		}
		return Val{T: t, L: []*Term{u.c.Real(r)}}
	}
	u.unsupported("constant %s", x)
	return Val{}
}

// runFn executes fn's body and returns the merged results.
func (u *Unit) runFn(fn *ssa.Function, args []Val, bnd []Val, st *State, caller *Frame) ([]Val, *State, bool) {
	if len(fn.Blocks) == 0 {
		u.unsupported("no body for %s", fn)
	}
	for _, f := range u.stack {
		if f == fn {
			u.unsupported("recursion through %s without contract", fn)
		}
	}
	if len(u.stack) > 12 {
		u.unsupported("inlining too deep at %s", fn)
	}
	u.stack = append(u.stack, fn)
	saveFn, saveIn := u.curFn, u.instr
	u.curFn = fn
	defer func() {
		u.stack = u.stack[:len(u.stack)-1]
		u.curFn, u.instr = saveFn, saveIn
	}()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, caller: caller, con: u.P.contractFor(fn), invSt: map[*ssa.BasicBlock]*loopInst{}}
	fr.path = u.P.fnName(fn)
	if caller != nil {
		fr.path = caller.path + ">" + fr.path
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bnd[i]
	}
	fr.loops = u.P.loopsOf(fn)
	if fr.loops.irreducible {
		u.unsupported("irreducible control flow in %s", fn)
	}
	fr.entrySt = st.clone()
	fr.entryAlloc = st.alloc
	u.execBlocks(fr, fr.loops.rpo, map[*ssa.BasicBlock][]inEdge{fn.Blocks[0]: {{nil, st}}}, nil)
	u.topFrame = fr
	if len(fr.rets) == 0 {
		return nil, nil, false
	}
	if caller == nil && u.topOnly {
		return nil, nil, true
	}
	var sts []*State
	var conds []*Term
	for _, r := range fr.rets {
		sts = append(sts, r.st)
		conds = append(conds, r.st.reach)
	}
	out := u.mergeStates(sts, "ret")
	n := fn.Signature.Results().Len()
	res := make([]Val, n)
	for i := 0; i < n; i++ {
		var vs []Val
		for _, r := range fr.rets {
			vs = append(vs, r.vals[i])
		}
		if len(vs) == 1 {
			res[i] = vs[0]
			continue
		}
		res[i] = u.mergeVals(conds, vs, fn.Signature.Results().At(i).Type())
	}
	return res, out, true
}

// execBlocks runs blocks (in topological order) with the given incoming edges.
// If region is non-nil only edges inside the region are followed; edges that
// leave it are reported to the sink.
type regionSink struct {
	blocks map[*ssa.BasicBlock]bool
	header *ssa.BasicBlock
	back   []inEdge
	exits  []inEdge
	exitTo []*ssa.BasicBlock
	unroll bool
	vals   []map[*ssa.Phi]Val
}

// carry records the values of the header's phis on a back edge.
func (k *regionSink) carry(u *Unit, fr *Frame, from *ssa.BasicBlock, s *State) {
	m := map[*ssa.Phi]Val{}
	i := predIndex(k.header, from)
	for _, phi := range phisOf(k.header) {
		m[phi] = u.val(fr, s, phi.Edges[i])
	}
	k.vals = append(k.vals, m)
}

type exitEdge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// tripCount returns the number of iterations of a range loop over a slice of
// small constant length, or -1.  Such loops are unrolled unless the contract
// gives invariants for them.
func (u *Unit) tripCount(fr *Frame, lp *loop, live []inEdge, st *State) int {
	if fr.con != nil && fr.con.Loops[lp.ord] != nil || len(live) != 1 {
		return -1
	}
	hb := lp.header
	br, ok := hb.Instrs[len(hb.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != hb {
		return -1
	}
	inc, ok := cmp.X.(*ssa.BinOp)
	if !ok || inc.Op != token.ADD {
		return -1
	}
	phi, ok := inc.X.(*ssa.Phi)
	if !ok || phi.Block() != hb || phi.Comment != "rangeindex" {
		return -1
	}
	if in, ok := cmp.Y.(ssa.Instruction); ok && in.Block() == hb {
		return -1
	}
	n := u.val(fr, st, cmp.Y)
	if len(n.L) != 1 || !n.L[0].isInt() || !n.L[0].val.IsInt64() || n.L[0].val.Int64() > 8 {
		return -1
	}
	for b := range lp.blocks {
		if b == hb {
			continue
		}
		for _, s := range b.Succs {
			if !lp.blocks[s] {
				return -1 // left by break as well
			}
		}
	}
	return int(n.L[0].val.Int64())
}

func (u *Unit) unroll(fr *Frame, lp *loop, live []inEdge, st *State, n int) []exitEdge {
	env := map[*ssa.Phi]Val{}
	k := predIndex(lp.header, live[0].from)
	for _, phi := range phisOf(lp.header) {
		env[phi] = u.val(fr, live[0].st, phi.Edges[k])
	}
	for i := 0; ; i++ {
		for phi, v := range env {
			v.T = phi.Type()
			fr.env[phi] = v
		}
		sink := &regionSink{blocks: lp.blocks, header: lp.header, unroll: true}
		u.execBlocks(fr, fr.loops.rpo, map[*ssa.BasicBlock][]inEdge{lp.header: {{nil, st}}}, sink)
		if len(sink.exits) > 0 {
			if len(sink.back) > 0 || len(sink.exits) > 1 {
				u.unsupported("unrolled loop left early")
			}
			return []exitEdge{{sink.exits[0].from, sink.exitTo[0], sink.exits[0].st}}
		}
		if len(sink.back) == 0 {
			return nil
		}
		if i > n {
			u.unsupported("unrolled loop does not end")
		}
		var sts []*State
		var conds []*Term
		for _, e := range sink.back {
			sts = append(sts, e.st)
			conds = append(conds, e.st.reach)
		}
		env = map[*ssa.Phi]Val{}
		for _, phi := range phisOf(lp.header) {
			var vs []Val
			for _, m := range sink.vals {
				vs = append(vs, m[phi])
			}
			if len(vs) == 1 {
				env[phi] = vs[0]
			} else {
				env[phi] = u.mergeVals(conds, vs, phi.Type())
			}
		}
		st = u.mergeStates(sts, "unr")
	}
}

func (u *Unit) execBlocks(fr *Frame, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]inEdge, sink *regionSink) {
	for _, b := range order {
		if sink != nil && !sink.blocks[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		// drop unreachable
		var live []inEdge
		for _, e := range es {
			if !e.st.reach.isFalse() {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		var sts []*State
		for _, e := range live {
			sts = append(sts, e.st)
		}
		st := u.mergeStates(sts, "b")
		lp := fr.loops.byHeader[b]
		if lp != nil && (sink == nil || sink.header != b) {
			if n := u.tripCount(fr, lp, live, st); n >= 0 {
				for _, e := range u.unroll(fr, lp, live, st, n) {
					if sink != nil && !sink.blocks[e.to] {
						sink.exits = append(sink.exits, inEdge{e.from, e.st})
					} else {
						in[e.to] = append(in[e.to], inEdge{e.from, e.st})
					}
				}
				continue
			}
			st = u.enterLoop(fr, lp, live, st)
		} else if sink == nil || sink.header != b {
			// phis
			vals := map[*ssa.Phi]Val{}
			for _, ins := range b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				var conds []*Term
				var vs []Val
				for _, e := range live {
					k := predIndex(b, e.from)
					vs = append(vs, u.val(fr, e.st, phi.Edges[k]))
					conds = append(conds, e.st.reach)
				}
				if len(vs) == 1 {
					v := vs[0]
					v.T = phi.Type()
					vals[phi] = v
				} else {
					vals[phi] = u.mergeVals(conds, vs, phi.Type())
				}
			}
			for p, v := range vals {
				fr.env[p] = v
			}
		}
		u.execBlock(fr, b, st, func(to *ssa.BasicBlock, s *State) {
			if s.reach.isFalse() {
				return
			}
			if fr.loops.isBack(b, to) {
				if sink != nil && to == sink.header {
					if sink.unroll {
						sink.carry(u, fr, b, s)
					}
					sink.back = append(sink.back, inEdge{b, s})
					return
				}
				u.backEdge(fr, to, b, s)
				return
			}
			if sink != nil && !sink.blocks[to] {
				sink.exits = append(sink.exits, inEdge{b, s})
				sink.exitTo = append(sink.exitTo, to)
				return
			}
			in[to] = append(in[to], inEdge{b, s})
		})
	}
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("predIndex")
}

func (u *Unit) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, goTo func(*ssa.BasicBlock, *State)) {
	c := u.c
	u.budget--
	if u.budget < 0 {
		u.unsupported("execution budget exceeded")
	}
	for _, ins := range b.Instrs {
		u.instr = ins
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			cv := u.val(fr, st, x.Cond).L[0]
			s1 := st.clone()
			s1.reach = c.And(st.reach, cv)
			s2 := st.clone()
			s2.reach = c.And(st.reach, c.Not(cv))
			if b.Succs[0] == b.Succs[1] {
				goTo(b.Succs[0], st)
				return
			}
			goTo(b.Succs[0], s1)
			goTo(b.Succs[1], s2)
			return
		case *ssa.Jump:
			goTo(b.Succs[0], st)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, u.val(fr, st, r))
			}
			fr.rets = append(fr.rets, retEdge{st, vs, b})
			return
		case *ssa.Panic:
			if u.con != nil && u.con.MayRefuse && fr.fn == u.fn {
				u.trusted["explicit panics of "+u.P.fnName(u.fn)+" are refusals of values which have no encoding"] = true
			} else {
				u.Assert(st, "panic", "explicit panic unreachable", c.tFalse)
			}
			return
		default:
			if !u.execInstr(fr, st, ins) {
				return
			}
			if st.reach.isFalse() {
				return
			}
		}
	}
}
