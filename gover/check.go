package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// The driver behind check.sh: verifies the contracts that carry a property,
// evaluates the executable contracts, writes the evidence and the replay
// files, and prints VIOLATION / KNOWN-FINDING lines.

type harnessViolation struct {
	Key, Case, What, Details, Input string
}

type harnessResult struct {
	Evals      int64              `json:"evals"`
	Distinct   int64              `json:"distinct"`
	Samples    []string           `json:"samples"`
	Violations []harnessViolation `json:"violations"`
	Sections   map[string]int64   `json:"sections"`
	Counters   map[string]int64   `json:"counters"`
	Stopped    string             `json:"stopped"`
}

type knownFinding struct {
	prop, key, text string
}

func loadFindings(file string) []knownFinding {
	var out []knownFinding
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN-FINDING ") {
			continue
		}
		f := knownFinding{}
		var rest []string
		for _, w := range strings.Fields(l)[1:] {
			switch {
			case strings.HasPrefix(w, "property=") && f.prop == "":
				f.prop = w[9:]
			case strings.HasPrefix(w, "key=") && f.key == "":
				f.key = w[4:]
			default:
				rest = append(rest, w)
			}
		}
		f.text = strings.Join(rest, " ")
		out = append(out, f)
	}
	return out
}

var baseAssumptions = []string{
	"Go compiler, runtime and golang.org/x/tools/go/ssa translate the source faithfully; gover's VC generation is sound",
	"solver answers (z3 4.8/5.x, cvc5) are correct when they say unsat",
	"slices and strings are shorter than 2^48 elements; memory never runs out",
	"library models of gover/models.go (io, bytes, encoding/binary, sort, slices, math, errors, fmt, unicode/utf16, utf8)",
	"io.Readers make progress: Read on a non-empty buffer returns n>0 or an error",
	"float64 arithmetic treated as real arithmetic where it occurs in a contract",
	"no concurrent mutation of the objects a function works on (C16 is separate)",
	"callees without contract or model inside other modules do not panic; everything reachable from their arguments is forgotten",
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	cdir := fs.String("contracts", "/verif/contracts", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	harness := fs.String("harness", "", "")
	root := fs.String("root", "/verif", "")
	fs.Parse(args)
	t0 := time.Now()
	deadline = t0.Add(10 * time.Minute)
	if *tier == "thorough" {
		deadline = t0.Add(60 * time.Minute)
	}
	die := func(err error) int {
		fmt.Println("check failed:", err)
		return 2
	}

	// level of the check
	var man struct {
		Checks []struct{ Property, Level string }
	}
	if b, err := os.ReadFile(filepath.Join(*root, "MANIFEST.json")); err == nil {
		json.Unmarshal(b, &man)
	}
	level := "other"
	for _, c := range man.Checks {
		if c.Property == *prop {
			level = c.Level
		}
	}

	// bounded part runs in the background
	type hres struct {
		r   harnessResult
		err error
		s   float64
	}
	hch := make(chan hres, 1)
	limit := "8m"
	if *tier == "thorough" {
		limit = "40m"
	}
	go func() {
		var h hres
		t := time.Now()
		out, err := os.CreateTemp("", "zzres")
		if err != nil {
			h.err = err
			hch <- h
			return
		}
		out.Close()
		defer os.Remove(out.Name())
		cmd := exec.Command(*harness, "-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-out", out.Name(), "-limit", limit)
		if !filepath.IsAbs(*harness) {
			cmd.Path = filepath.Join(*root, *harness)
		}
		msg, err := cmd.CombinedOutput()
		if err != nil {
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
				h.err = nil // no executable contract
			} else {
				h.err = fmt.Errorf("%v: %s", err, msg)
			}
		} else {
			b, err := os.ReadFile(out.Name())
			if err == nil {
				err = json.Unmarshal(b, &h.r)
			}
			h.err = err
		}
		h.s = time.Since(t).Seconds()
		hch <- h
	}()

	// proofs
	S, err := loadSpecs(*cdir)
	if err != nil {
		return die(err)
	}
	ov, err := overlayFiles(filepath.Join(*cdir, "lemmas"), *repo)
	if err != nil {
		return die(err)
	}
	P, err := loadProgram(*repo, ov, S)
	if err != nil {
		return die(err)
	}
	var jobs []job
	bound := map[string]bool{}
	for _, f := range P.repoFunctions() {
		con := P.contractFor(f)
		if con == nil {
			continue
		}
		bound[con.Key] = true
		if con.Trusted || !hasProp(con, *prop) {
			continue
		}
		jobs = append(jobs, job{f, con})
	}
	var notes []string
	for _, k := range S.Order {
		c := S.Contracts[k]
		if !c.Trusted && c.Impls == nil && hasProp(c, *prop) && !bound[k] {
			notes = append(notes, "contract without function (renamed or removed in the source): "+k)
		}
	}
	per := 90 * time.Second
	if *tier == "thorough" {
		per = 120 * time.Second
	}
	reps := runJobs(P, jobs, 8, per, nil)
	sortReports(reps)
	h := <-hch
	if h.err != nil {
		return die(h.err)
	}

	// ---- collect
	total, good := 0, 0
	var failed []*Oblig
	var funcs []map[string]any
	byBack := map[string]int{}
	kinds := map[string]int{}
	trusted := map[string]bool{}
	solver := 0.0
	var errs []*FuncReport
	for _, r := range reps {
		n, g := 0, 0
		for _, o := range r.Obls {
			if o.Expect {
				// vacuity guard: reported, not counted as a proof obligation
				if !o.good() && !strings.Contains(o.Name, "cover loop") {
					failed = append(failed, o)
				}
				continue
			}
			n++
			kinds[o.Kind]++
			if o.good() {
				g++
				byBack[o.By]++
			} else {
				failed = append(failed, o)
			}
		}
		total += n
		good += g
		solver += r.Solver
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		f := map[string]any{"function": r.Func, "obligations": n, "discharged": g, "rounds": r.Rounds}
		if r.Err != "" {
			f["error"] = r.Err
			errs = append(errs, r)
		}
		if len(r.Inlined) > 0 {
			f["executed_in_place"] = r.Inlined
		}
		funcs = append(funcs, f)
	}

	known := loadFindings(filepath.Join(*root, "known_findings.txt"))
	isKnown := func(key string) bool {
		for _, k := range known {
			if k.prop == *prop && k.key == key {
				return true
			}
		}
		return false
	}
	for _, k := range known {
		if k.prop == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
		}
	}
	rdir := filepath.Join(*root, "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, *prop+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	nviol := 0
	concrete := 0
	for _, v := range h.r.Violations {
		if isKnown(v.Key) {
			continue
		}
		nviol++
		concrete++
		name := filepath.Join(rdir, fmt.Sprintf("%s-%s.txt", *prop, sanitizeFile(v.Key)))
		var sb strings.Builder
		fmt.Fprintf(&sb, "property: %s\nkey: %s\ncase: %s\nwhat: %s\n", *prop, v.Key, v.Case, v.What)
		fmt.Fprintf(&sb, "replay: /verif/check.sh --setup && /verif/%s -prop %s -tier %s -seed %d -case '%s'\n", *harness, *prop, *tier, *seed, v.Case)
		fmt.Fprintf(&sb, "input: %s\n\n%s\n", v.Input, v.Details)
		for _, o := range failed {
			fmt.Fprintf(&sb, "failed obligation: %s\n", o.Name)
		}
		os.WriteFile(name, []byte(sb.String()), 0o644)
		fmt.Printf("violated: %s: %s\n", v.Key, v.What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, name)
	}
	// failed obligations
	var fl []string
	var sb strings.Builder
	for _, o := range failed {
		if isKnown(strings.ReplaceAll(o.Name, " ", "_")) {
			continue
		}
		fl = append(fl, o.Name)
		fmt.Fprintf(&sb, "failed obligation: %s\n  at %s\n  solver: %s %s\n%s\n", o.Name, o.Pos, o.Result, o.Detail, o.Model)
	}
	for _, r := range errs {
		if isKnown("unverifiable:" + r.Func) {
			continue
		}
		fl = append(fl, r.Func+": not verifiable: "+r.Err)
		fmt.Fprintf(&sb, "function not verifiable: %s: %s\n", r.Func, r.Err)
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if len(fl) > 0 {
		nviol += len(fl)
		name := filepath.Join(rdir, *prop+"-obligations.txt")
		var hd strings.Builder
		fmt.Fprintf(&hd, "property: %s\n", *prop)
		for _, f := range fl {
			fmt.Fprintf(&hd, "failed: %s\n", f)
			fmt.Println("failed obligation:", f)
		}
		os.WriteFile(name, []byte(hd.String()+"\n"+sb.String()), 0o644)
		if concrete == 0 {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, name)
		}
	}

	// ---- evidence
	cov := map[string]any{}
	cov["obligations"] = total
	cov["discharged"] = good
	cov["checker_cmd"] = fmt.Sprintf("gover check -prop %s (z3-new, z3, cvc5)", *prop)
	var tb []string
	for t := range trusted {
		tb = append(tb, t)
	}
	sort.Strings(tb)
	cov["trusted_base"] = append([]string{"gover", "golang.org/x/tools/go/ssa", "z3", "cvc5"}, tb...)
	cov["functions_under_contract"] = funcs
	cov["functions_proved"] = len(reps) - countFailed(reps)
	cov["obligations_by_backend"] = byBack
	cov["obligations_by_kind"] = kinds
	cov["solver_seconds"] = round1(solver)
	if h.r.Evals > 0 || len(h.r.Sections) > 0 {
		if level != "proof" {
			cov["evaluations"] = h.r.Evals
			cov["distinct_nontrivial"] = h.r.Distinct
			cov["rule"] = "bounded executable contracts (harness sections listed under bounded.sections); an evaluation is one input/structure/history checked against its contract, distinct by content hash"
			cov["samples"] = h.r.Samples
		}
		cov["bounded"] = map[string]any{"label": "bounded, not proved", "evaluations": h.r.Evals, "distinct": h.r.Distinct, "sections": h.r.Sections, "counters": h.r.Counters, "seconds": round1(h.s), "stopped": h.r.Stopped, "samples": h.r.Samples}
	}
	cov["explanation"] = fmt.Sprintf("%d obligations of %d functions generated from the current source, %d discharged by solvers for all inputs; %d bounded evaluations of executable contracts on the real code (labelled bounded, not counted as proved)", total, len(reps), good, h.r.Evals)
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": level, "coverage": cov,
		"assumptions": baseAssumptions, "wall_s": round1(time.Since(t0).Seconds()), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
		return die(err)
	}
	fmt.Printf("%s: %d functions, %d/%d obligations discharged, %d bounded evaluations, %.1fs\n", *prop, len(reps), good, total, h.r.Evals, time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

func countFailed(reps []*FuncReport) int {
	n := 0
	for _, r := range reps {
		if r.Err != "" || len(r.failed()) > 0 {
			n++
		}
	}
	return n
}

func round1(x float64) float64 { return float64(int(x*10+0.5)) / 10 }
