package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncReport struct {
	Func    string
	Props   []string
	Err     string // not verifiable (unsupported construct, bad contract)
	Obls    []*Oblig
	Rounds  int
	Secs    float64
	Solver  float64
	Trusted []string
	Used    []string
	Inlined []string
	Dropped int
	Cands   int
}

func (r *FuncReport) failed() []*Oblig {
	var out []*Oblig
	for _, o := range r.Obls {
		if !o.good() {
			out = append(out, o)
		}
	}
	return out
}

func (o *Oblig) good() bool {
	if o.Expect {
		return o.Result != "unsat"
	}
	return o.Result == "unsat"
}

var genMu sync.Mutex

func (u *Unit) build(dropped map[string]bool) (err error) {
	genMu.Lock()
	defer genMu.Unlock()
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(unsupportedError); ok {
				where := ""
				if p := u.pos(); p.IsValid() {
					where = fmt.Sprintf(" at %s:%d", p.Filename, p.Line)
				}
				err = fmt.Errorf("%s%s", m.msg, where)
				return
			}
			if debugPanics {
				debug.PrintStack()
			}
			where := ""
			if p := u.pos(); p.IsValid() {
				where = fmt.Sprintf(" at %s:%d", p.Filename, p.Line)
			}
			err = fmt.Errorf("internal: %v%s", r, where)
		}
	}()
	c := u.c
	fn, con := u.fn, u.con
	st := &State{heap: map[string]*Term{}, reach: c.tTrue}
	u.alloc0 = c.Named("alloc0", SInt)
	c.lower[u.alloc0.id] = []*Term{}
	u.alloc0.lo = c.Int(0).val
	st.alloc = u.alloc0
	u.Assume(c.mk("<=", "", SBool, c.Int(0), u.alloc0))
	u.allocMax(u.alloc0)
	u.dropped = dropped
	var args []Val
	var names []string
	for i, p := range fn.Params {
		v := u.newVal(st, "p_"+p.Name(), p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok && !(con != nil && con.NilRecv) {
				u.Assume(c.Gt(v.L[0], c.Int(0)))
			}
		}
		if con == nil {
			// plain safety sweep: pointer arguments are non-nil
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				u.Assume(c.Gt(v.L[0], c.Int(0)))
			}
		}
		args = append(args, v)
		n := p.Name()
		if con != nil && len(con.Params) == len(fn.Params) {
			n = con.Params[i]
		}
		names = append(names, n)
	}
	u.entry = st.clone()
	u.entry.heap = st.heap // base constants are shared
	look := nameEnv(names, args, nil)
	u.paramLookup = look
	env := &Env{u: u, st: u.entry, old: u.entry, fn: fn, names: look, allocAt: u.alloc0}
	u.noFrame = con == nil || con.NoFrame || con.AnyMod || con.Lemma
	var windows []locTarget
	if con != nil {
		for _, r := range con.Requires {
			t, err := u.evalClause(env, r)
			if err != nil {
				return err
			}
			u.Assume(t)
		}
		for _, m := range con.Modifies {
			ts, err := u.locTargets(env, m)
			if err != nil {
				return err
			}
			for _, t := range ts {
				u.frames = append(u.frames, frameAllowed{t.key, t.ref})
				if t.lo != nil {
					windows = append(windows, t)
				}
			}
		}
		for _, a := range u.P.S.Axioms {
			if con != nil && a.File != con.File {
				continue
			}
			t, err := u.evalClause(&Env{u: u, st: u.entry, old: u.entry, fn: fn, allocAt: u.alloc0}, a)
			if err != nil {
				return err
			}
			u.Assume(t)
		}
		u.obls = append(u.obls, &Oblig{Name: u.P.fnName(fn) + ": cover requires", Kind: "cover", Fn: u.P.fnName(fn), Goal: c.tFalse, NA: len(u.assume), Expect: true, Pos: u.P.Fset.Position(fn.Pos())})
	}
	work := st.clone()
	u.topOnly = true
	_, _, ok := u.runFn(fn, args, nil, work, nil)
	fr := u.topFrame
	u.instr, u.curFn = nil, fn
	if !ok {
		return nil
	}
	rn := []string{}
	if con != nil {
		rn = resultNames(con, fn.Signature)
	}
	var reach []*Term
	for _, r := range fr.rets {
		reach = append(reach, r.st.reach)
		if con == nil {
			continue
		}
		env := &Env{u: u, st: r.st, old: u.entry, fn: fn, names: nameEnv(rn, r.vals, look), allocAt: u.alloc0}
		for _, e := range con.Asserts {
			missing := false
			aenv := *env
			names := env.names
			aenv.names = func(n string) (Val, bool) {
				if v, ok := names(n); ok {
					return v, true
				}
				v, ok := u.localVar(fr, r.st, n, r.b)
				if !ok {
					missing = true
				}
				return v, ok
			}
			t, err := u.evalClause(&aenv, e)
			if err != nil {
				if missing {
					continue
				}
				return err
			}
			u.Assert(r.st, "assert", e.Text, t)
			u.Assume(c.Implies(r.st.reach, t))
		}
		for ord, l := range con.Loops {
			if l.NoTerm {
				u.trusted[fmt.Sprintf("termination of loop %d of %s", ord, con.Key)] = true
			}
		}
		for _, e := range con.Ensures {
			if e.Assumed {
				u.trusted["assumed postcondition of "+con.Key+": "+e.Text] = true
				continue
			}
			t, err := u.evalClause(env, e)
			if err != nil {
				return err
			}
			u.Assert(r.st, "ensures", e.Text, t)
		}
		if !u.noFrame {
			for _, w := range windows {
				srt := u.heapSort(w.key)
				h0 := u.heapGet(u.entry, w.key, srt)
				h1 := u.heapGet(r.st, w.key, srt)
				if h0 == h1 {
					continue
				}
				i := c.Bound("i", SInt)
				a1 := c.Select(c.Select(h1, w.ref), i)
				out := c.Or(c.Lt(i, w.lo), c.Le(w.hi, i))
				// the same block may be listed by several clauses
				var others []*Term
				for _, w2 := range windows {
					if w2.key == w.key && (w2.lo != w.lo || w2.hi != w.hi || w2.ref != w.ref) {
						others = append(others, c.And(c.Eq(w.ref, w2.ref), c.Le(w2.lo, i), c.Lt(i, w2.hi)))
					}
				}
				g := c.Forall([]*Term{i}, c.Implies(c.And(out, c.Not(c.Or(others...))), c.Eq(a1, c.Select(c.Select(h0, w.ref), i))), []*Term{a1})
				u.Assert(r.st, "frame", "only the listed elements of "+w.key+" change", g)
			}
		}
	}
	if con != nil && len(reach) > 0 {
		u.obls = append(u.obls, &Oblig{Name: u.P.fnName(fn) + ": cover exit", Kind: "cover", Fn: u.P.fnName(fn), Goal: c.Not(c.Or(reach...)), NA: len(u.assume), Expect: true, Pos: u.P.Fset.Position(fn.Pos())})
	}
	return nil
}

var debugPanics, debugTime bool

func newUnit(P *Program, fn *ssa.Function, con *Contract) *Unit {
	return &Unit{c: newCtx(), P: P.fork(), fn: fn, con: con, factOK: map[int]bool{}, dropped: map[string]bool{}, cands: map[string]bool{},
		trusted: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, nameCnt: map[string]int{}, baseAlloc: map[string]*Term{},
		loopMods: map[string]map[string]bool{}, loopSeen: map[string]bool{}, budget: 60000}
}

// verifyFunc generates and discharges all obligations of one function.
func verifyFunc(P *Program, fn *ssa.Function, con *Contract, finalT time.Duration) *FuncReport {
	t0 := time.Now()
	rep := &FuncReport{Func: P.fnName(fn)}
	if con != nil {
		rep.Props = con.Props
		if con.Timeout > 0 {
			finalT = time.Duration(con.Timeout) * time.Second
		}
	}
	dropped := map[string]bool{}
	var u *Unit
	for {
		rep.Rounds++
		u = newUnit(P, fn, con)
		tb := time.Now()
		if err := u.build(dropped); err != nil {
			rep.Err = err.Error()
			rep.Secs = time.Since(t0).Seconds()
			return rep
		}
		var cands []*Oblig
		for _, o := range u.obls {
			if o.Kind == "cand" {
				cands = append(cands, o)
			}
		}
		if len(cands) == 0 {
			break
		}
		if !deadline.IsZero() && time.Now().After(deadline) {
			rep.Err = "out of time"
			rep.Secs = time.Since(t0).Seconds()
			return rep
		}
		tg := time.Since(tb)
		u.incrementalPar(cands, 150)
		// the clauses of the contract get a second chance
		var again []*Oblig
		for _, o := range cands {
			if o.Result != "unsat" && o.Result != "sat" && !dropped[o.Cand] && strings.Contains(o.Cand, ":clause") {
				o.Result = ""
				again = append(again, o)
			}
		}
		if len(again) > 0 {
			u.singles(again)
		}
		if debugTime {
			println(rep.Func, "round", rep.Rounds, "cands", len(cands), "obls", len(u.obls), "assume", len(u.assume), "gen", tg.Milliseconds(), "solve", time.Since(tb).Milliseconds()-tg.Milliseconds())
		}
		n := 0
		for _, o := range cands {
			rep.Solver += o.Secs
			if o.Result != "unsat" && !dropped[o.Cand] {
				dropped[o.Cand] = true
				n++
			}
		}
		rep.Cands = len(cands)
		if n == 0 {
			break
		}
		if rep.Rounds > 12 {
			// give up on candidates
			for _, o := range cands {
				dropped[o.Cand] = true
			}
		}
	}
	rep.Dropped = len(dropped)
	var obls []*Oblig
	for _, o := range u.obls {
		if o.Kind != "cand" {
			obls = append(obls, o)
		}
	}
	var real, cover []*Oblig
	for _, o := range obls {
		if o.Expect {
			cover = append(cover, o)
		} else {
			real = append(real, o)
		}
	}
	u.alternatives(real)
	var rest []*Oblig
	for _, o := range real {
		if o.Result != "unsat" {
			rest = append(rest, o)
		}
	}
	u.incrementalPar(rest, 700)
	u.singles(rest)
	u.incremental(cover, 500)
	if finalT > 0 {
		var wg sync.WaitGroup
		for _, o := range real {
			if o.Result == "unsat" {
				continue
			}
			o := o
			wg.Add(1)
			go func() {
				defer wg.Done()
				t := time.Now()
				for _, g := range o.goals() {
					if g.isFalse() && len(o.Alts) > 0 {
						continue
					}
					to := finalT
					if len(o.Alts) > 0 {
						to = 5 * time.Second
					}
					r, by := u.single(o, g, to)
					if r == "unsat" {
						o.Result, o.By = r, by
						break
					}
					o.Detail = r
				}
				o.Secs += time.Since(t).Seconds()
			}()
		}
		wg.Wait()
	}
	for i, o := range real {
		if !o.good() && i < 20 && finalT > 0 && (deadline.IsZero() || time.Now().Before(deadline)) {
			o.Model = u.candidateModel(o)
		}
	}
	for _, o := range obls {
		rep.Solver += o.Secs
	}
	rep.Obls = obls
	rep.Trusted = sortedKeys(u.trusted)
	rep.Used = sortedKeys(u.used)
	rep.Inlined = sortedKeys(u.inlined)
	rep.Secs = time.Since(t0).Seconds()
	return rep
}

type job struct {
	fn  *ssa.Function
	con *Contract
}

func runJobs(P *Program, jobs []job, par int, finalT time.Duration, done func(*FuncReport)) []*FuncReport {
	out := make([]*FuncReport, len(jobs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, par)
	var mu sync.Mutex
	for i, j := range jobs {
		i, j := i, j
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = verifyFunc(P, j.fn, j.con, finalT)
			if done != nil {
				mu.Lock()
				done(out[i])
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return out
}

func sortReports(r []*FuncReport) {
	sort.Slice(r, func(i, j int) bool { return r[i].Func < r[j].Func })
}

func hasProp(c *Contract, p string) bool {
	for _, q := range c.Props {
		if q == p {
			return true
		}
	}
	return false
}

func dumpReport(r *FuncReport, verbose bool) {
	nf := 0
	for _, o := range r.Obls {
		if !o.good() {
			nf++
		}
	}
	status := "ok"
	if r.Err != "" {
		status = "ERROR " + r.Err
	} else if nf > 0 {
		status = fmt.Sprintf("FAILED %d", nf)
	}
	fmt.Printf("%-60s %4d obligations %-10s rounds=%d %.1fs\n", r.Func, len(r.Obls), status, r.Rounds, r.Secs)
	for _, o := range r.Obls {
		if verbose || !o.good() {
			d := o.Detail
			fmt.Printf("    %-8s %s [%s:%d] %s %s %.1fs\n", map[bool]string{true: "ok", false: "FAIL"}[o.good()], o.Name, o.Pos.Filename[strings.LastIndex(o.Pos.Filename, "/")+1:], o.Pos.Line, o.By, d, o.Secs)
		}
	}
}
