package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
	parent *loop
	ranges bool // range over map or string: finite by the language
}

type loopInfo struct {
	rpo         []*ssa.BasicBlock
	byHeader    map[*ssa.BasicBlock]*loop
	all         []*loop
	irreducible bool
}

func (li *loopInfo) isBack(from, to *ssa.BasicBlock) bool {
	l := li.byHeader[to]
	return l != nil && l.blocks[from]
}

func (P *Program) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := P.loopCache[fn]; ok {
		return l
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	P.loopCache[fn] = li
	// DFS
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	type edge struct{ a, b *ssa.BasicBlock }
	var backs []edge
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				backs = append(backs, edge{b, s})
				if !s.Dominates(b) {
					li.irreducible = true
				}
			}
		}
		state[b] = 2
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, e := range backs {
		l := li.byHeader[e.b]
		if l == nil {
			l = &loop{header: e.b, blocks: map[*ssa.BasicBlock]bool{e.b: true}}
			li.byHeader[e.b] = l
			li.all = append(li.all, l)
		}
		work := []*ssa.BasicBlock{e.a}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if l.blocks[b] {
				continue
			}
			l.blocks[b] = true
			for _, p := range b.Preds {
				if state[p] == 2 {
					work = append(work, p)
				}
			}
		}
	}
	minPos := func(l *loop) token.Pos {
		m := token.Pos(1 << 40)
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.DebugRef); ok {
					if p := d.Expr.Pos(); p.IsValid() && p < m {
						m = p
					}
				} else if in.Pos().IsValid() && in.Pos() < m {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						m = in.Pos()
					}
				}
			}
		}
		return m
	}
	sort.SliceStable(li.all, func(i, j int) bool {
		a, b := li.all[i], li.all[j]
		if pa, pb := minPos(a), minPos(b); pa != pb {
			return pa < pb
		}
		return len(a.blocks) > len(b.blocks)
	})
	for i, l := range li.all {
		l.ord = i
		for _, m := range li.all {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
		for _, in := range l.header.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				l.ranges = true
			}
		}
	}
	// a topological order in which loop bodies come before loop exits keeps
	// merges small; plain RPO is sufficient for correctness
	return li
}

type loopInst struct {
	lp      *loop
	pre     map[*ssa.Phi]Val
	head    map[*ssa.Phi]Val
	preSt   *State
	headSt  *State
	cands   []cand
	spec    *LoopSpec
	key     string
	meas    []measure
	decs    []*Term
	modKeys []string
}

type cand struct {
	key  string
	eval func(lc *loopCtx) *Term
}

type measure struct {
	txt  string
	eval func(lc *loopCtx) *Term
	head *Term
}

// loopCtx evaluates expressions at the loop head for a given phi assignment.
type loopCtx struct {
	u    *Unit
	fr   *Frame
	lp   *loop
	phi  func(*ssa.Phi) Val
	st   *State
	inst *loopInst
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else if _, ok := in.(*ssa.DebugRef); !ok {
			break
		}
	}
	return out
}

func (u *Unit) enterLoop(fr *Frame, lp *loop, live []inEdge, st *State) *State {
	c := u.c
	inst := &loopInst{lp: lp, pre: map[*ssa.Phi]Val{}, head: map[*ssa.Phi]Val{}, preSt: st.clone()}
	u.instr = firstReal(lp.header)
	for _, phi := range phisOf(lp.header) {
		var conds []*Term
		var vs []Val
		for _, e := range live {
			k := predIndex(lp.header, e.from)
			vs = append(vs, u.val(fr, e.st, phi.Edges[k]))
			conds = append(conds, e.st.reach)
		}
		var v Val
		if len(vs) == 1 {
			v = vs[0]
		} else {
			v = u.mergeVals(conds, vs, phi.Type())
		}
		v.T = phi.Type()
		if v.A != nil {
			u.unsupported("loop-carried interior pointer")
		}
		inst.pre[phi] = v
	}
	if fr.con != nil {
		inst.spec = fr.con.Loops[lp.ord]
	}
	inst.key = fmt.Sprintf("%s#%d", fr.path, lp.ord)

	// ---- which locations does the body modify?
	mods := u.loopMods[inst.key]
	if mods == nil {
		mods = map[string]bool{}
		u.loopMods[inst.key] = mods
	}
	var log []storeRec
	var marker int
	var dryAlloc *Term
	epochChanged := false
	allocChanged := false
	setPhis := func(s *State, hint string) {
		for _, phi := range phisOf(lp.header) {
			v := u.newVal(s, hint+phi.Comment, phi.Type())
			if inst.pre[phi].It != nil {
				v.It = inst.pre[phi].It
			}
			fr.env[phi] = v
		}
	}
	for iter := 0; iter < 6; iter++ {
		na := len(u.assume)
		nr := len(fr.rets)
		u.dry++
		marker = c.n
		s := st.clone()
		dryAlloc = c.Fresh("alloc_dry", SInt)
		s.alloc = dryAlloc
		u.Assume(c.Ge(dryAlloc, st.alloc))
		for k := range mods {
			if srt := u.heapSort(k); srt != "" {
				s.heap[k] = c.Fresh("Hd$"+k, srt)
			}
		}
		setPhis(s, "d_")
		log = nil
		u.logs = append(u.logs, &log)
		sink := &regionSink{blocks: lp.blocks, header: lp.header}
		saveRets := fr.rets
		u.execBlocks(fr, fr.loops.rpo, map[*ssa.BasicBlock][]inEdge{lp.header: {{nil, s}}}, sink)
		fr.rets = saveRets[:nr]
		u.logs = u.logs[:len(u.logs)-1]
		u.dry--
		u.truncate(na)
		grew := false
		for _, r := range log {
			if !mods[r.key] {
				mods[r.key] = true
				grew = true
			}
		}
		allocChanged = false
		for _, e := range sink.back {
			if e.st.epoch != st.epoch {
				epochChanged = true
			}
			if e.st.alloc != dryAlloc {
				allocChanged = true
			}
		}
		if !grew {
			break
		}
	}
	u.instr = firstReal(lp.header)

	// ---- invariants on entry
	preCtx := &loopCtx{u: u, fr: fr, lp: lp, st: st, inst: inst, phi: func(p *ssa.Phi) Val { return inst.pre[p] }}
	inst.cands = u.loopCandidates(fr, lp, inst, preCtx)
	if inst.spec != nil {
		for i, cl := range inst.spec.Inv {
			t, err := u.evalClause(preCtx.env(), cl)
			if err != nil {
				u.unsupported("invariant %d of loop %d: %v", i, lp.ord, err)
			}
			u.Assert(st, "invariant", fmt.Sprintf("loop %d init: %s", lp.ord, cl.Text), t)
		}
	}

	// ---- havoc
	hv := st.clone()
	if allocChanged {
		hv.alloc = c.Fresh("alloc_loop", SInt)
		c.lower[hv.alloc.id] = []*Term{st.alloc}
		u.Assume(c.Ge(hv.alloc, st.alloc))
		u.allocMax(hv.alloc)
	}
	if epochChanged {
		u.nepoch++
		hv.epoch = u.nepoch
		hv.heap = map[string]*Term{}
		u.baseAlloc[fmt.Sprintf("epoch%d", hv.epoch)] = hv.alloc
	}
	var keys []string
	for k := range mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	inst.modKeys = keys
	type frameCand struct {
		key string
		pre *Term
	}
	for _, k := range keys {
		srt := u.heapSort(k)
		if srt == "" || epochChanged {
			continue
		}
		pre := u.heapGet(st, k, srt)
		if k[0] == 'G' {
			h := c.Fresh("Hl$"+k, srt)
			u.heapFacts(h, k, hv.alloc)
			hv.heap[k] = h
			for _, l := range u.logs {
				*l = append(*l, storeRec{k, nil})
			}
			continue
		}
		var targets []*Term
		fresh, arbitrary := false, false
		seen := map[int]bool{}
		hit := false
		for _, r := range log {
			if r.key != k {
				continue
			}
			hit = true
			if r.ref == nil {
				arbitrary = true
				continue
			}
			if seen[r.ref.id] {
				continue
			}
			seen[r.ref.id] = true
			if !c.dependsAfter(r.ref, marker) {
				targets = append(targets, r.ref)
			} else if u.freshAfter(r.ref, marker) {
				fresh = true
			} else {
				arbitrary = true
			}
		}
		if !hit {
			continue // recorded for another context of the same loop
		}
		// propagate to enclosing dry runs
		for _, l := range u.logs {
			for _, t := range targets {
				*l = append(*l, storeRec{k, t})
			}
			if arbitrary {
				*l = append(*l, storeRec{k, nil})
			}
			if fresh {
				*l = append(*l, storeRec{k, c.Add(hv.alloc, c.Int(1))})
			}
		}
		if !arbitrary && !fresh {
			_, vs := srt.arrParts()
			h := pre
			for _, t := range targets {
				f := c.Fresh("hv$"+k, vs)
				u.cellFacts(hv, k, f)
				h = c.Store(h, t, f)
			}
			hv.heap[k] = h
			continue
		}
		h := c.Fresh("Hl$"+k, srt)
		u.heapFacts(h, k, hv.alloc)
		hv.heap[k] = h
		if !arbitrary {
			r := c.Bound("r", SInt)
			_, vs := srt.arrParts()
			c.agree[h.id] = agreement{pre, st.alloc}
			for _, t := range targets {
				f := c.Fresh("hv$"+k, vs)
				u.cellFacts(hv, k, f)
				hv.heap[k] = c.Store(hv.heap[k], t, f)
			}
			cond := []*Term{u.isOldRef(r, st.alloc)}
			sel := c.mk("select", "", func() Sort { _, v := srt.arrParts(); return v }(), h, r)
			u.Assume(c.Forall([]*Term{r}, c.Implies(c.And(cond...), c.Eq(sel, c.Select(pre, r))), []*Term{sel}))
		} else if !u.noCand {
			// candidate frames
			k := k
			pre0 := u.heapGet(u.entry, k, srt)
			add := func(name string, ref *Term, base *Term) {
				key := inst.key + ":frame-" + name + ":" + k
				inst.cands = append(inst.cands, cand{key, func(lc *loopCtx) *Term {
					h := u.heapGet(lc.st, k, srt)
					if h == base {
						return c.tTrue
					}
					r := c.Bound("r", SInt)
					sel := c.mk("select", "", func() Sort { _, v := srt.arrParts(); return v }(), h, r)
					return c.Forall([]*Term{r}, c.Implies(u.isOldRef(r, ref), c.Eq(sel, c.Select(base, r))), []*Term{sel})
				}})
			}
			add("entry", u.alloc0, pre0)
			add("pre", st.alloc, pre)
			if !u.dropped[inst.key+":frame-pre:"+k] {
				c.agree[h.id] = agreement{pre, st.alloc}
			} else if !u.dropped[inst.key+":frame-entry:"+k] {
				c.agree[h.id] = agreement{pre0, u.alloc0}
			}
			tgts := targets
			if len(tgts) > 0 {
				key := inst.key + ":frame-tgt:" + k
				al := st.alloc
				inst.cands = append(inst.cands, cand{key, func(lc *loopCtx) *Term {
					h := u.heapGet(lc.st, k, srt)
					if h == pre {
						return c.tTrue
					}
					r := c.Bound("r", SInt)
					sel := c.mk("select", "", func() Sort { _, v := srt.arrParts(); return v }(), h, r)
					cond := []*Term{u.isOldRef(r, al)}
					for _, t := range tgts {
						cond = append(cond, c.Not(c.Eq(r, t)))
					}
					return c.Forall([]*Term{r}, c.Implies(c.And(cond...), c.Eq(sel, c.Select(pre, r))), []*Term{sel})
				}})
			}
		}
	}
	for _, phi := range phisOf(lp.header) {
		v := u.newVal(hv, "l_"+phi.Comment, phi.Type())
		if inst.spec != nil && len(v.L) == 1 && v.L[0].sort == SInt {
			// an invariant (proved like the others) bounds the variable
			if hi := inst.spec.Hi[phi.Comment]; hi != nil {
				v.L[0].SetRange(nil, hi)
			}
		}
		if phi.Comment == "rangeindex" && len(v.L) == 1 && isRangeLoop(lp.header, phi) {
			// counts the elements of a slice or array from -1
			v.L[0].SetRange(big.NewInt(-1), maxLen)
			u.Assume(c.And(c.mk("<=", "", SBool, c.Int(-1), v.L[0]), c.mk("<=", "", SBool, v.L[0], c.Big(maxLen))))
		}
		v.It = inst.pre[phi].It
		fr.env[phi] = v
		inst.head[phi] = v
	}
	inst.headSt = hv.clone()
	headCtx := &loopCtx{u: u, fr: fr, lp: lp, st: hv, inst: inst, phi: func(p *ssa.Phi) Val { return inst.head[p] }}

	// candidate obligations on entry, then assume at head
	var alive []cand
	seenC := map[string]bool{}
	for _, cd := range inst.cands {
		if u.dropped[cd.key] || seenC[cd.key] {
			continue
		}
		seenC[cd.key] = true
		if u.dry == 0 {
			t := cd.eval(preCtx)
			if !t.isTrue() {
				u.obls = append(u.obls, &Oblig{Kind: "cand", Name: cd.key + " init", Cand: cd.key, Goal: c.hints(c.Implies(st.reach, t)), NA: len(u.assume)})
			}
		}
		alive = append(alive, cd)
	}
	inst.cands = alive
	if u.dry == 0 {
		for _, cd := range alive {
			u.Assume(c.Implies(hv.reach, cd.eval(headCtx)))
		}
	}
	if inst.spec != nil {
		for _, cl := range inst.spec.Inv {
			t, err := u.evalClause(headCtx.env(), cl)
			if err != nil {
				u.unsupported("invariant of loop %d: %v", lp.ord, err)
			}
			u.Assume(c.Implies(hv.reach, t))
		}
		for _, d := range inst.spec.Dec {
			t, err := u.evalTerm(headCtx.env(), d)
			if err != nil {
				u.unsupported("decreases of loop %d: %v", lp.ord, err)
			}
			inst.decs = append(inst.decs, t)
		}
	}
	if inst.spec == nil || len(inst.spec.Dec) == 0 {
		inst.meas = u.autoMeasures(fr, lp, headCtx)
	}
	if u.dry == 0 && !u.loopSeen[inst.key] {
		u.loopSeen[inst.key] = true
		// cover: the loop head must be reachable
		u.obls = append(u.obls, &Oblig{Name: u.P.fnName(u.fn) + ": cover loop " + inst.key, Kind: "cover", Fn: u.P.fnName(u.fn), Goal: c.Not(hv.reach), NA: len(u.assume), Expect: true, Pos: u.pos()})
	}
	fr.invSt[lp.header] = inst
	return hv
}

func firstReal(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			if _, ok := in.(*ssa.Phi); !ok {
				return in
			}
		}
	}
	return b.Instrs[0]
}

// cellFacts asserts typing of a havocked cell.
func (u *Unit) cellFacts(st *State, key string, t *Term) {
	l, ok := u.P.keyLeaf[key]
	if !ok {
		return
	}
	if t.sort.isArr() {
		u.heapFacts1(t, key, st.alloc, false)
		return
	}
	u.leafFacts(st, l, t)
}

// isOldRef: r denotes an object (or array embedded in one) allocated at a.
func (u *Unit) isOldRef(r, a *Term) *Term {
	c := u.c
	return c.And(c.mk("<=", "", SBool, r, a), c.Or(
		c.mk("<=", "", SBool, c.Sub(c.Int(-256), c.Mul(c.Int(256), a)), r),
		c.mk("<=", "", SBool, r, u.globalRef0())))
}

// allocMax: fewer than 2^50 objects are ever allocated.
func (u *Unit) allocMax(a *Term) {
	u.Assume(u.c.mk("<=", "", SBool, a, u.c.Int(1<<50)))
}

// references below this value belong to global arrays
func (u *Unit) globalRef0() *Term {
	return u.c.Big(globalRefMax)
}

// dependsAfter reports whether t mentions a constant created at or after marker.
func (c *Ctx) dependsAfter(t *Term, marker int) bool {
	memo := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.id < marker {
			return false
		}
		if v, ok := memo[t.id]; ok {
			return v
		}
		r := false
		if t.op == "const" {
			r = !(strings.HasPrefix(t.name, "H") && len(t.name) > 1 && t.name[1] >= '0' && t.name[1] <= '9') && !strings.HasPrefix(t.name, "str$")
		}
		for _, a := range t.args {
			if rec(a) {
				r = true
			}
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

// freshAfter: t is a reference allocated after marker.
func (u *Unit) freshAfter(t *Term, marker int) bool {
	b, k := splitConst(t)
	if b != nil && b.op == "const" && strings.HasPrefix(b.name, "alloc_") && b.id >= marker && k.Sign() > 0 {
		return true
	}
	// embedded array of a fresh object: k - 256*r
	if t.op == "-" && len(t.args) == 2 && t.args[1].op == "*" && t.args[1].args[0].isInt() && t.args[1].args[0].val.Int64() == 256 {
		return u.freshAfter(t.args[1].args[1], marker)
	}
	if t.op == "+" && t.args[1].isInt() && t.args[0].op == "-" {
		return u.freshAfter(t.args[0], marker)
	}
	// -256*alloc form after distribution: (k - (256*a)) with a=alloc const
	if t.op == "-" && len(t.args) == 2 && t.args[0].isInt() && t.args[1].op == "*" {
		in := t.args[1].args[1]
		if in.op == "const" && strings.HasPrefix(in.name, "alloc_") && in.id >= marker {
			return true
		}
	}
	if t.op == "ite" {
		return u.freshAfter(t.args[1], marker) && u.freshAfter(t.args[2], marker)
	}
	return false
}

func (u *Unit) backEdge(fr *Frame, h *ssa.BasicBlock, from *ssa.BasicBlock, s *State) {
	if u.dry > 0 {
		return
	}
	inst := fr.invSt[h]
	if inst == nil {
		u.unsupported("back edge to unknown loop (block %d of %s)", h.Index, fr.fn)
	}
	c := u.c
	k := predIndex(h, from)
	back := map[*ssa.Phi]Val{}
	for _, phi := range phisOf(h) {
		v := u.val(fr, s, phi.Edges[k])
		if v.A != nil {
			u.unsupported("loop-carried interior pointer")
		}
		v.T = phi.Type()
		back[phi] = v
	}
	save := u.instr
	lc := &loopCtx{u: u, fr: fr, lp: inst.lp, st: s, inst: inst, phi: func(p *ssa.Phi) Val { return back[p] }}
	if inst.spec != nil {
		for _, cl := range inst.spec.Inv {
			t, err := u.evalClause(lc.env(), cl)
			if err != nil {
				u.unsupported("invariant of loop %d: %v", inst.lp.ord, err)
			}
			u.Assert(s, "invariant", fmt.Sprintf("loop %d preserved: %s", inst.lp.ord, cl.Text), t)
		}
	}
	for _, cd := range inst.cands {
		t := cd.eval(lc)
		if t.isTrue() {
			continue
		}
		u.obls = append(u.obls, &Oblig{Kind: "cand", Name: cd.key + " back", Cand: cd.key, Goal: c.hints(c.Implies(s.reach, t)), NA: len(u.assume)})
	}
	// termination
	name := fmt.Sprintf("loop %d terminates", inst.lp.ord)
	if inst.spec != nil && len(inst.spec.Dec) > 0 {
		// lexicographic
		cond := c.tFalse
		eq := c.tTrue
		for i, d := range inst.spec.Dec {
			t, err := u.evalTerm(lc.env(), d)
			if err != nil {
				u.unsupported("decreases: %v", err)
			}
			cond = c.Or(cond, c.And(eq, c.Le(c.Int(-1), inst.decs[i]), c.Lt(t, inst.decs[i])))
			eq = c.And(eq, c.Eq(t, inst.decs[i]))
		}
		u.Assert(s, "termination", name, cond)
		return
	}
	if inst.lp.ranges || inst.spec != nil && inst.spec.NoTerm {
		return
	}
	o := &Oblig{Kind: "termination", Fn: u.P.fnName(u.fn), Pos: u.pos(), NA: len(u.assume), Goal: c.Implies(s.reach, c.tFalse)}
	base := u.P.fnName(u.fn) + ": termination " + name
	if fr.fn != u.fn {
		base += " (in " + u.P.fnName(fr.fn) + ")"
	}
	u.nameCnt[base]++
	o.Name = base
	if n := u.nameCnt[base]; n > 1 {
		o.Name = fmt.Sprintf("%s #%d", base, n)
	}
	for _, m := range inst.meas {
		t := m.eval(lc)
		if t == nil || m.head == nil {
			continue
		}
		o.Alts = append(o.Alts, c.Implies(s.reach, c.And(c.Le(c.Int(-1), m.head), c.Lt(t, m.head))))
	}
	u.obls = append(u.obls, o)
	u.instr = save
}

// ---- candidates ---------------------------------------------------------------

// evalPure evaluates an SSA value at the loop head.
func (lc *loopCtx) evalPure(v ssa.Value, depth int) (res Val, ok bool) {
	u := lc.u
	if depth > 6 {
		return Val{}, false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return u.val(lc.fr, lc.st, v), true
	case *ssa.Phi:
		if x.Block() == lc.lp.header {
			w := lc.phi(x)
			return w, w.L != nil || w.T != nil
		}
	}
	in, isIn := v.(ssa.Instruction)
	if !isIn || !lc.lp.blocks[in.Block()] {
		if w, ok := lc.fr.env[v]; ok {
			if isIn && !in.Block().Dominates(lc.lp.header) {
				return Val{}, false
			}
			return w, true
		}
		return Val{}, false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, isU := r.(unsupportedError); isU {
				ok = false
				return
			}
			panic(r)
		}
	}()
	switch x := v.(type) {
	case *ssa.BinOp:
		if !isInteger(x.Type()) {
			return Val{}, false
		}
		a, ok1 := lc.evalPure(x.X, depth+1)
		b, ok2 := lc.evalPure(x.Y, depth+1)
		if !ok1 || !ok2 {
			return Val{}, false
		}
		switch x.Op {
		case token.ADD:
			return u.one(x.Type(), u.wrap(u.c.Add(a.L[0], b.L[0]), x.Type())), true
		case token.SUB:
			return u.one(x.Type(), u.wrap(u.c.Sub(a.L[0], b.L[0]), x.Type())), true
		case token.MUL:
			return u.one(x.Type(), u.wrap(u.c.Mul(a.L[0], b.L[0]), x.Type())), true
		}
	case *ssa.Convert:
		if isInteger(x.Type()) && isInteger(x.X.Type()) {
			a, ok := lc.evalPure(x.X, depth+1)
			if ok {
				return u.one(x.Type(), u.wrap(a.L[0], x.Type())), true
			}
		}
	case *ssa.Call:
		if b, isB := x.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
			a, ok := lc.evalPure(x.Call.Args[0], depth+1)
			if ok && len(a.L) == 4 {
				return u.one(x.Type(), a.L[2]), true
			}
			if ok && isString(x.Call.Args[0].Type()) {
				return u.one(x.Type(), u.slen(a.L[0])), true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a, ok := lc.evalPure(x.X, depth+1)
			if ok {
				w := u.load(lc.st, a, x.Type())
				return w, true
			}
		}
	case *ssa.FieldAddr:
		a, ok := lc.evalPure(x.X, depth+1)
		if ok {
			return u.fieldAddr(lc.st, a, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field, x.Type()), true
		}
	}
	return Val{}, false
}

func condOps(lp *loop) []*ssa.BinOp {
	var out []*ssa.BinOp
	var bs []*ssa.BasicBlock
	for b := range lp.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.BinOp); ok && isInteger(x.X.Type()) {
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					out = append(out, x)
				}
			}
		}
	}
	return out
}

// bounds lists expressions that limit the loop's integer variables.
func (u *Unit) loopBounds(fr *Frame, lp *loop, lc *loopCtx) []ssa.Value {
	var out []ssa.Value
	seen := map[string]bool{}
	add := func(v ssa.Value) {
		if len(out) >= 8 {
			return
		}
		// strip integer additions of constants
		w, ok := lc.evalPure(v, 0)
		if !ok || len(w.L) != 1 {
			return
		}
		if w.L[0].isInt() && w.L[0].val.BitLen() < 2 {
			return
		}
		k := v.Name()
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, v)
	}
	isPhiish := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok {
			v = b.X
		}
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
		}
		p, ok := v.(*ssa.Phi)
		return ok && p.Block() == lp.header
	}
	for _, x := range condOps(lp) {
		if isPhiish(x.X) || !isPhiish(x.Y) {
			add(x.Y)
		}
		if isPhiish(x.Y) || !isPhiish(x.X) {
			add(x.X)
		}
	}
	return out
}

func (u *Unit) loopCandidates(fr *Frame, lp *loop, inst *loopInst, pre *loopCtx) []cand {
	if u.noCand || inst.spec != nil && (inst.spec.NoAuto || fr.con.NoAuto) {
		return nil
	}
	c := u.c
	var out []cand
	phis := phisOf(lp.header)
	add := func(name string, f func(lc *loopCtx) *Term) {
		out = append(out, cand{inst.key + ":" + name, f})
	}
	// clauses of the contract about the parameters only
	if con := u.con; con != nil && u.paramLookup != nil && (inst.spec == nil || len(inst.spec.Inv) == 0) {
		clauses := append(append([]Clause{}, con.Requires...), con.Ensures...)
		n := 0
		for i, cl := range clauses {
			cl := cl
			ev := func(lc *loopCtx) (*Term, bool) {
				env := &Env{u: u, st: lc.st, old: u.entry, fn: u.fn, names: u.paramLookup, allocAt: u.alloc0}
				t, err := u.evalClause(env, cl)
				return t, err == nil
			}
			t0, ok := ev(pre)
			if !ok || n >= 8 || cl.Assumed {
				continue
			}
			// nothing to do for clauses that do not depend on the heap
			env0 := &Env{u: u, st: u.entry, old: u.entry, fn: u.fn, names: u.paramLookup, allocAt: u.alloc0}
			if t1, err := u.evalClause(env0, cl); err == nil && t1 == t0 && !mentionsHeap(cl.Text) {
				continue
			}
			n++
			add(fmt.Sprintf("clause%d", i), func(lc *loopCtx) *Term {
				t, ok := ev(lc)
				if !ok {
					return c.tFalse
				}
				return t
			})
		}
	}
	bounds := u.loopBounds(fr, lp, pre)
	alloc0 := u.alloc0
	preAlloc := inst.preSt.alloc
	var ints []*ssa.Phi
	for _, p := range phis {
		if isInteger(p.Type()) {
			ints = append(ints, p)
		}
	}
	for i, p := range phis {
		p := p
		nm := fmt.Sprintf("%d", i)
		p0 := inst.pre[p]
		switch {
		case isInteger(p.Type()):
			add(nm+">=pre", func(lc *loopCtx) *Term { return c.Ge(lc.phi(p).L[0], p0.L[0]) })
			add(nm+"<=pre", func(lc *loopCtx) *Term { return c.Le(lc.phi(p).L[0], p0.L[0]) })
			add(nm+">=0", func(lc *loopCtx) *Term { return c.Ge(lc.phi(p).L[0], c.Int(0)) })
			add(nm+">=-1", func(lc *loopCtx) *Term { return c.Ge(lc.phi(p).L[0], c.Int(-1)) })
			for bi, b := range bounds {
				b := b
				for d := int64(-1); d <= 1; d++ {
					d := d
					add(fmt.Sprintf("%s<=b%d%+d", nm, bi, d), func(lc *loopCtx) *Term {
						w, ok := lc.evalPure(b, 0)
						if !ok {
							return c.tFalse
						}
						return c.Le(lc.phi(p).L[0], c.Add(w.L[0], c.Int(d)))
					})
				}
				add(fmt.Sprintf("%s>=b%d", nm, bi), func(lc *loopCtx) *Term {
					w, ok := lc.evalPure(b, 0)
					if !ok {
						return c.tFalse
					}
					return c.Ge(lc.phi(p).L[0], w.L[0])
				})
			}
			for j, q := range ints {
				if q == p {
					continue
				}
				q := q
				q0 := inst.pre[q]
				add(fmt.Sprintf("%s~i%d", nm, j), func(lc *loopCtx) *Term {
					return c.Eq(c.Sub(lc.phi(p).L[0], p0.L[0]), c.Sub(lc.phi(q).L[0], q0.L[0]))
				})
				add(fmt.Sprintf("%s<=i%d", nm, j), func(lc *loopCtx) *Term {
					return c.Le(lc.phi(p).L[0], lc.phi(q).L[0])
				})
				add(fmt.Sprintf("%s<i%d", nm, j), func(lc *loopCtx) *Term {
					return c.Lt(lc.phi(p).L[0], lc.phi(q).L[0])
				})
				add(fmt.Sprintf("%s<=~i%d", nm, j), func(lc *loopCtx) *Term {
					return c.Le(c.Sub(lc.phi(p).L[0], p0.L[0]), c.Sub(lc.phi(q).L[0], q0.L[0]))
				})
			}
		default:
			switch p.Type().Underlying().(type) {
			case *types.Slice:
				add(nm+":fresh", func(lc *loopCtx) *Term {
					v := lc.phi(p)
					return c.Or(c.Gt(v.L[0], alloc0), c.Eq(v.L[3], c.Int(0)))
				})
				add(nm+":fresh-loop", func(lc *loopCtx) *Term {
					v := lc.phi(p)
					return c.Or(c.Gt(v.L[0], preAlloc), c.Eq(v.L[3], c.Int(0)), c.Eq(v.L[0], p0.L[0]))
				})
				add(nm+":sameref", func(lc *loopCtx) *Term { return c.Eq(lc.phi(p).L[0], p0.L[0]) })
				add(nm+":len>=pre", func(lc *loopCtx) *Term { return c.Ge(lc.phi(p).L[2], p0.L[2]) })
				add(nm+":len<=pre", func(lc *loopCtx) *Term { return c.Le(lc.phi(p).L[2], p0.L[2]) })
				add(nm+":off>=pre", func(lc *loopCtx) *Term { return c.Ge(lc.phi(p).L[1], p0.L[1]) })
				add(nm+":end", func(lc *loopCtx) *Term {
					v := lc.phi(p)
					return c.Eq(c.Add(v.L[1], v.L[2]), c.Add(p0.L[1], p0.L[2]))
				})
				add(nm+":capend", func(lc *loopCtx) *Term {
					v := lc.phi(p)
					return c.Eq(c.Add(v.L[1], v.L[3]), c.Add(p0.L[1], p0.L[3]))
				})
				add(nm+":sameoff", func(lc *loopCtx) *Term { return c.Eq(lc.phi(p).L[1], p0.L[1]) })
				for j, q := range ints {
					q := q
					q0 := inst.pre[q]
					add(fmt.Sprintf("%s:len~i%d", nm, j), func(lc *loopCtx) *Term {
						return c.Eq(c.Sub(lc.phi(p).L[2], p0.L[2]), c.Sub(lc.phi(q).L[0], q0.L[0]))
					})
					add(fmt.Sprintf("%s:len<=i%d", nm, j), func(lc *loopCtx) *Term {
						return c.Le(c.Sub(lc.phi(p).L[2], p0.L[2]), c.Sub(lc.phi(q).L[0], q0.L[0]))
					})
					add(fmt.Sprintf("%s:i%d<=len", nm, j), func(lc *loopCtx) *Term {
						return c.Le(lc.phi(q).L[0], lc.phi(p).L[2])
					})
					add(fmt.Sprintf("%s:i%d+len", nm, j), func(lc *loopCtx) *Term {
						return c.Eq(c.Add(lc.phi(q).L[0], lc.phi(p).L[2]), c.Add(q0.L[0], p0.L[2]))
					})
				}
				for bi, b := range bounds {
					b := b
					add(fmt.Sprintf("%s:len<=b%d", nm, bi), func(lc *loopCtx) *Term {
						w, ok := lc.evalPure(b, 0)
						if !ok {
							return c.tFalse
						}
						return c.Le(lc.phi(p).L[2], w.L[0])
					})
				}
				// lock step with other slices
				for j, q := range phis {
					if j >= i {
						break
					}
					if _, ok := q.Type().Underlying().(*types.Slice); ok {
						q := q
						q0 := inst.pre[q]
						add(fmt.Sprintf("%s:len~s%d", nm, j), func(lc *loopCtx) *Term {
							return c.Eq(c.Sub(lc.phi(p).L[2], p0.L[2]), c.Sub(lc.phi(q).L[2], q0.L[2]))
						})
						add(fmt.Sprintf("%s:ref!=s%d", nm, j), func(lc *loopCtx) *Term {
							a, b := lc.phi(p), lc.phi(q)
							return c.Or(c.Not(c.Eq(a.L[0], b.L[0])), c.Eq(a.L[3], c.Int(0)), c.Eq(b.L[3], c.Int(0)))
						})
					}
				}
			case *types.Pointer, *types.Map:
				add(nm+":nonnil", func(lc *loopCtx) *Term { return c.Not(c.Eq(lc.phi(p).L[0], c.Int(0))) })
				add(nm+":freshptr", func(lc *loopCtx) *Term { return c.Gt(lc.phi(p).L[0], alloc0) })
			case *types.Interface:
				add(nm+":nil", func(lc *loopCtx) *Term { return c.Eq(lc.phi(p).L[0], c.Int(0)) })
				add(nm+":nonnil", func(lc *loopCtx) *Term { return c.Not(c.Eq(lc.phi(p).L[0], c.Int(0))) })
			}
		}
	}
	return out
}

// autoMeasures proposes termination measures.
func (u *Unit) autoMeasures(fr *Frame, lp *loop, head *loopCtx) []measure {
	c := u.c
	var out []measure
	add := func(txt string, f func(lc *loopCtx) *Term) {
		m := measure{txt: txt, eval: f}
		m.head = f(head)
		if m.head != nil {
			out = append(out, m)
		}
	}
	phis := phisOf(lp.header)
	bounds := u.loopBounds(fr, lp, head)
	for _, p := range phis {
		p := p
		switch {
		case isInteger(p.Type()):
			for _, b := range bounds {
				b := b
				add(b.Name()+"-"+p.Comment, func(lc *loopCtx) *Term {
					w, ok := lc.evalPure(b, 0)
					if !ok {
						return nil
					}
					return c.Sub(w.L[0], lc.phi(p).L[0])
				})
				add(p.Comment+"-"+b.Name(), func(lc *loopCtx) *Term {
					w, ok := lc.evalPure(b, 0)
					if !ok {
						return nil
					}
					return c.Sub(lc.phi(p).L[0], w.L[0])
				})
			}
			add(p.Comment, func(lc *loopCtx) *Term { return lc.phi(p).L[0] })
		default:
			switch p.Type().Underlying().(type) {
			case *types.Slice:
				add("len("+p.Comment+")", func(lc *loopCtx) *Term { return lc.phi(p).L[2] })
				for _, b := range bounds {
					b := b
					add(b.Name()+"-len("+p.Comment+")", func(lc *loopCtx) *Term {
						w, ok := lc.evalPure(b, 0)
						if !ok {
							return nil
						}
						return c.Sub(w.L[0], lc.phi(p).L[2])
					})
				}
			case *types.Basic:
				if isString(p.Type()) {
					add("len("+p.Comment+")", func(lc *loopCtx) *Term { return u.slen(lc.phi(p).L[0]) })
				}
			}
		}
	}
	// differences of integer variables
	var ints []*ssa.Phi
	for _, p := range phis {
		if isInteger(p.Type()) {
			ints = append(ints, p)
		}
	}
	for _, p := range ints {
		for _, q := range ints {
			if p != q && len(ints) <= 5 {
				p, q := p, q
				add(p.Comment+"-"+q.Comment, func(lc *loopCtx) *Term { return c.Sub(lc.phi(p).L[0], lc.phi(q).L[0]) })
			}
		}
	}
	// bounds alone (quantities in memory, e.g. len(p.buf))
	for i, b := range bounds {
		b := b
		add(b.Name(), func(lc *loopCtx) *Term {
			w, ok := lc.evalPure(b, 0)
			if !ok {
				return nil
			}
			return w.L[0]
		})
		for j, d := range bounds {
			if i != j {
				d := d
				add(b.Name()+"-"+d.Name(), func(lc *loopCtx) *Term {
					w, ok := lc.evalPure(b, 0)
					w2, ok2 := lc.evalPure(d, 0)
					if !ok || !ok2 {
						return nil
					}
					return c.Sub(w.L[0], w2.L[0])
				})
			}
		}
	}
	return out
}

// isRangeLoop: the header of a loop "for i := range slice" as the SSA builder makes it.
func isRangeLoop(hb *ssa.BasicBlock, phi *ssa.Phi) bool {
	if len(hb.Instrs) == 0 || len(phi.Edges) == 0 {
		return false
	}
	if k, ok := phi.Edges[0].(*ssa.Const); !ok || k.Value == nil || k.Value.ExactString() != "-1" {
		return false
	}
	br, ok := hb.Instrs[len(hb.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	inc, ok := cmp.X.(*ssa.BinOp)
	return ok && inc.Op == token.ADD && inc.X == ssa.Value(phi)
}

func mentionsHeap(s string) bool { return strings.ContainsAny(s, ".([") }
