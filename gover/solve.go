package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// smtWriter emits terms with shared sub-terms as define-funs.
type smtWriter struct {
	sb      *bytes.Buffer
	names   map[int]string
	parents map[int]int
}

func countParents(roots []*Term) map[int]int {
	p := map[int]int{}
	var rec func(t *Term)
	rec = func(t *Term) {
		p[t.id]++
		if p[t.id] > 1 {
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, r := range roots {
		rec(r)
	}
	return p
}

func (w *smtWriter) text(t *Term) string {
	var sb strings.Builder
	bud := 0
	printTerm(&sb, t, w.names, &bud)
	return sb.String()
}

func (w *smtWriter) def(t *Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if len(t.args) == 0 {
		return
	}
	for _, a := range t.args {
		w.def(a, seen)
	}
	if t.bound || w.parents[t.id] < 2 || w.names[t.id] != "" {
		return
	}
	s := w.text(t)
	n := fmt.Sprintf("d%d", t.id)
	w.sb.WriteString("(define-fun " + n + " () " + string(t.sort) + " " + s + ")\n")
	w.names[t.id] = n
}

func (u *Unit) preamble(sb *bytes.Buffer, z3 bool) {
	if z3 {
		sb.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.ematching true)\n(set-option :smt.qi.eager_threshold 50)\n(set-option :smt.arith.solver 2)\n")
	} else {
		sb.WriteString("(set-logic ALL)\n")
	}
	sb.WriteString("(declare-sort Str 0)\n")
	for _, f := range u.c.funs {
		sb.WriteString(f + "\n")
	}
	for _, d := range u.c.decls {
		sb.WriteString("(declare-const |" + d.name + "| " + string(d.sort) + ")\n")
	}
}

func (u *Unit) roots(obls []*Oblig) []*Term {
	var r []*Term
	r = append(r, u.assume...)
	for _, o := range obls {
		r = append(r, o.Goal)
		r = append(r, o.Alts...)
	}
	return r
}

type query struct {
	o    *Oblig
	goal *Term
}

func (o *Oblig) goals() []*Term {
	if len(o.Alts) > 0 {
		return append([]*Term{o.Goal}, o.Alts...)
	}
	return []*Term{o.Goal}
}

var dumpDir string

// rlimitPerMs is the number of z3 resource units per millisecond, roughly.
const rlimitPerMs = 3500

// deadline ends the search for proofs (obligations which are left count as
// not proved), so that a check always gives an answer.
var deadline time.Time

var procSem = make(chan struct{}, 8)

// incrementalPar splits the work over several solver processes.
func (u *Unit) incrementalPar(obls []*Oblig, timeoutMs int) {
	n := len(obls) / 25
	if n > 6 {
		n = 6
	}
	if n < 2 {
		u.incremental(obls, timeoutMs)
		return
	}
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		var part []*Oblig
		for i := k; i < len(obls); i += n {
			part = append(part, obls[i])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			u.incremental(part, timeoutMs)
		}()
	}
	wg.Wait()
}

// alternatives tries the termination measures one after the other, each with
// a small budget.
func (u *Unit) alternatives(obls []*Oblig) {
	for k := 0; ; k++ {
		var pend []*Oblig
		var orig []*Oblig
		for _, o := range obls {
			if g := o.goals(); len(o.Alts) > 0 && o.Result == "" && k < len(g) {
				if g[k].isFalse() {
					continue
				}
				pend = append(pend, &Oblig{Name: o.Name, Kind: o.Kind, Fn: o.Fn, Goal: g[k], NA: o.NA, Pos: o.Pos})
				orig = append(orig, o)
			}
		}
		more := false
		for _, o := range obls {
			if len(o.Alts) > 0 && o.Result == "" && k+1 < len(o.goals()) {
				more = true
			}
		}
		if len(pend) > 0 {
			u.incremental(pend, 100)
		}
		for i, p := range pend {
			orig[i].Secs += p.Secs
			if p.Result == "unsat" {
				orig[i].Result, orig[i].By = "unsat", p.By
			}
		}
		if !more {
			return
		}
	}
}

// incremental checks all obligations in one solver process.
func (u *Unit) incremental(obls []*Oblig, timeoutMs int) {
	var pend []*Oblig
	for _, o := range obls {
		if o.Result == "" {
			if o.Goal.isTrue() {
				o.Result, o.By = "unsat", "simplifier"
				continue
			}
			pend = append(pend, o)
		}
	}
	if len(pend) == 0 {
		return
	}
	var sb bytes.Buffer
	u.preamble(&sb, true)
	w := &smtWriter{sb: &sb, names: map[int]string{}, parents: countParents(u.roots(pend))}
	seen := map[int]bool{}
	na := 0
	// A resource limit makes the answers independent of the speed of the machine.
	fmt.Fprintf(&sb, "(set-option :rlimit %d)\n(set-option :timeout %d)\n", timeoutMs*rlimitPerMs, 8*timeoutMs)
	type ask struct {
		o *Oblig
	}
	var asks []*Oblig
	for _, o := range pend {
		for ; na < o.NA; na++ {
			w.def(u.assume[na], seen)
			sb.WriteString("(assert " + w.text(u.assume[na]) + ")\n")
		}
		for _, g := range o.goals() {
			if g.isFalse() && len(o.Alts) > 0 {
				continue
			}
			w.def(g, seen)
			sb.WriteString("(push)\n(assert (not " + w.text(g) + "))\n(check-sat)\n(pop)\n")
			asks = append(asks, o)
		}
	}
	procSem <- struct{}{}
	defer func() { <-procSem }()
	if dumpDir != "" {
		os.WriteFile(filepath.Join(dumpDir, sanitizeFile(u.P.fnName(u.fn))+".smt2"), sb.Bytes(), 0o644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(len(asks))*time.Duration(timeoutMs)*8*time.Millisecond+60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "-memory:3000")
	cmd.SysProcAttr = dieWithParent
	cmd.Stdin = &sb
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	i := 0
	last := time.Now()
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "(error") {
			if i < len(asks) {
				asks[i].Detail = l
			}
			fmt.Fprintf(os.Stderr, "solver: %s: %s\n", u.P.fnName(u.fn), l)
			continue
		}
		if i >= len(asks) {
			break
		}
		o := asks[i]
		o.Secs += time.Since(last).Seconds()
		last = time.Now()
		switch l {
		case "unsat":
			o.Result, o.By = "unsat", "z3-new"
		case "sat", "unknown", "timeout":
			if o.Result != "unsat" {
				o.Detail = l
			}
		}
		i++
	}
	io.Copy(io.Discard, out)
	cmd.Wait()
}

func sanitizeFile(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

type solverCfg struct {
	name string
	args []string
	z3   bool
	opts string
}

var portfolio = []solverCfg{
	{"z3-new", []string{"-in"}, true, ""},
	{"z3-new/mbqi", []string{"-in"}, true, "(set-option :smt.mbqi true)\n(set-option :smt.arith.solver 6)\n"},
	{"z3", []string{"-in"}, true, "(set-option :smt.random_seed 7)\n"},
	{"cvc5", []string{"--lang=smt2", "-"}, false, ""},
	{"z3-new/auto", []string{"-in"}, true, "AUTO"},
}

// relevant selects the assumptions within some distance of the goal in the
// graph of shared symbols; dropping assumptions is always sound.
func (u *Unit) relevant(as []*Term, g *Term, rounds int) []*Term {
	syms := func(t *Term) map[int]bool {
		m := map[int]bool{}
		seen := map[int]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t.id] {
				return
			}
			seen[t.id] = true
			if t.op == "const" {
				m[t.id] = true
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return m
	}
	all := make([]map[int]bool, len(as))
	freq := map[int]int{}
	for i, a := range as {
		all[i] = syms(a)
		for s := range all[i] {
			freq[s]++
		}
	}
	act := syms(g)
	in := make([]bool, len(as))
	for r := 0; r < rounds; r++ {
		var add []int
		for i := range as {
			if in[i] {
				continue
			}
			n, hit, rare := len(all[i]), 0, 0
			for s := range all[i] {
				if act[s] {
					hit++
					if freq[s]*5 < len(as) {
						rare++
					}
				}
			}
			if hit == n || rare > 0 && 2*hit >= n {
				add = append(add, i)
			}
		}
		if len(add) == 0 {
			break
		}
		for _, i := range add {
			in[i] = true
			for s := range all[i] {
				act[s] = true
			}
		}
	}
	var out []*Term
	for i, a := range as {
		if in[i] {
			out = append(out, a)
		}
	}
	return out
}

// once1 gives one goal its own solver run, with all assumptions or with the
// relevant ones only.
func (u *Unit) once1(o *Oblig, g *Term, rounds int, ms int) bool {
	as := u.assume[:o.NA]
	if rounds > 0 {
		as = u.relevant(as, g, rounds)
	}
	var sb bytes.Buffer
	u.preamble(&sb, true)
	fmt.Fprintf(&sb, "(set-option :rlimit %d)\n", ms*rlimitPerMs)
	w := &smtWriter{sb: &sb, names: map[int]string{}, parents: countParents(append(append([]*Term(nil), as...), g))}
	seen := map[int]bool{}
	for _, a := range as {
		w.def(a, seen)
		sb.WriteString("(assert " + w.text(a) + ")\n")
	}
	w.def(g, seen)
	sb.WriteString("(assert (not " + w.text(g) + "))\n(check-sat)\n")
	if dumpDir != "" {
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("%s_%d_r%d.smt2", sanitizeFile(o.Name), g.id, rounds)), sb.Bytes(), 0o644)
	}
	procSem <- struct{}{}
	defer func() { <-procSem }()
	if !deadline.IsZero() && time.Now().After(deadline) {
		return false
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(8*ms)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "-memory:3000")
	cmd.SysProcAttr = dieWithParent
	cmd.Stdin = &sb
	t := time.Now()
	out, _ := cmd.Output()
	_ = t
	return strings.TrimSpace(string(out)) == "unsat"
}

// dieWithParent ends a solver which is still running when gover exits.
var dieWithParent = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}

// singles tries one goal after the other alone.
func (u *Unit) singles(obls []*Oblig) {
	for _, st := range []struct{ rounds, ms int }{{0, 1500}, {2, 1000}, {3, 2500}, {5, 3000}} {
		var wg sync.WaitGroup
		for _, o := range obls {
			if o.Result != "" || len(o.Alts) > 0 {
				continue
			}
			o := o
			wg.Add(1)
			go func() {
				defer wg.Done()
				t := time.Now()
				if u.once1(o, o.Goal, st.rounds, st.ms) {
					o.Result, o.By = "unsat", "z3-new"
				}
				o.Secs += time.Since(t).Seconds()
			}()
		}
		wg.Wait()
	}
}

// single solves one goal with the portfolio.
func (u *Unit) single(o *Oblig, g *Term, timeout time.Duration) (string, string) {
	mk := func(cfg solverCfg) []byte {
		var sb bytes.Buffer
		if cfg.opts == "AUTO" {
			sb.WriteString("(declare-sort Str 0)\n")
			for _, f := range u.c.funs {
				sb.WriteString(f + "\n")
			}
			for _, d := range u.c.decls {
				sb.WriteString("(declare-const |" + d.name + "| " + string(d.sort) + ")\n")
			}
		} else {
			u.preamble(&sb, cfg.z3)
			sb.WriteString(cfg.opts)
		}
		roots := append(append([]*Term(nil), u.assume[:o.NA]...), g)
		w := &smtWriter{sb: &sb, names: map[int]string{}, parents: countParents(roots)}
		seen := map[int]bool{}
		for _, a := range u.assume[:o.NA] {
			w.def(a, seen)
			sb.WriteString("(assert " + w.text(a) + ")\n")
		}
		w.def(g, seen)
		sb.WriteString("(assert (not " + w.text(g) + "))\n(check-sat)\n")
		return sb.Bytes()
	}
	if dumpDir != "" {
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("%s_%d.smt2", sanitizeFile(o.Name), g.id)), mk(portfolio[0]), 0o644)
	}
	if !deadline.IsZero() && time.Until(deadline) < timeout {
		timeout = max(0, time.Until(deadline))
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout*time.Duration(len(portfolio)))
	defer cancel()
	type res struct{ r, by string }
	ch := make(chan res, len(portfolio))
	var wg sync.WaitGroup
	for _, cfg := range portfolio {
		cfg := cfg
		wg.Add(1)
		go func() {
			defer wg.Done()
			procSem <- struct{}{}
			defer func() { <-procSem }()
			if ctx.Err() != nil {
				ch <- res{"timeout", cfg.name}
				return
			}
			prog := cfg.name
			if i := strings.Index(prog, "/"); i >= 0 {
				prog = prog[:i]
			}
			ctx, cancel := context.WithTimeout(ctx, timeout)
			defer cancel()
			cmd := exec.CommandContext(ctx, prog, cfg.args...)
			cmd.SysProcAttr = dieWithParent
			cmd.Stdin = bytes.NewReader(mk(cfg))
			out, _ := cmd.Output()
			s := "unknown"
			for _, l := range strings.Split(string(out), "\n") {
				if l == "unsat" || l == "sat" {
					s = l
				}
				if strings.HasPrefix(l, "(error") && s == "unknown" {
					s = "error " + l
				}
			}
			ch <- res{s, cfg.name}
		}()
	}
	final := res{"unknown", ""}
	for range portfolio {
		r := <-ch
		if r.r == "unsat" {
			cancel()
			final = r
			break
		}
		if r.r == "sat" {
			final = r
		}
	}
	go wg.Wait()
	return final.r, final.by
}

// candidateModel asks the solver for parameter values that falsify o.
func (u *Unit) candidateModel(o *Oblig) string {
	var consts []string
	for _, d := range u.c.decls {
		if strings.HasPrefix(d.name, "p_") && (d.sort == SInt || d.sort == SBool || d.sort == SReal) {
			consts = append(consts, "|"+d.name+"|")
		}
	}
	if len(consts) == 0 {
		return ""
	}
	var sb bytes.Buffer
	u.preamble(&sb, true)
	w := &smtWriter{sb: &sb, names: map[int]string{}, parents: countParents(append(append([]*Term(nil), u.assume[:o.NA]...), o.Goal))}
	seen := map[int]bool{}
	for _, a := range u.assume[:o.NA] {
		w.def(a, seen)
		sb.WriteString("(assert " + w.text(a) + ")\n")
	}
	w.def(o.Goal, seen)
	sb.WriteString("(assert (not " + w.text(o.Goal) + "))\n(check-sat)\n(get-value (" + strings.Join(consts, " ") + "))\n")
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "-T:4")
	cmd.SysProcAttr = dieWithParent
	cmd.Stdin = &sb
	out, _ := cmd.Output()
	if len(out) > 2000 {
		out = out[:2000]
	}
	return "  candidate parameter values (solver model, may be spurious):\n" + string(out)
}
