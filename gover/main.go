package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

func loadSpecs(dir string) (*Specs, error) {
	S := newSpecs()
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvr"))
	sort.Strings(files)
	for _, f := range files {
		if err := S.load(f); err != nil {
			return nil, err
		}
	}
	return S, nil
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract directory")
	funcs := flag.String("f", "", "regexp of function names")
	prop := flag.String("prop", "", "only contracts of this property")
	sweep := flag.Bool("sweep", false, "also verify functions without contract (safety only)")
	verbose := flag.Bool("v", false, "list all obligations")
	list := flag.Bool("externals", false, "list external calls")
	names := flag.Bool("names", false, "list function names")
	final := flag.Int("t", 20, "seconds per residual obligation")
	flag.StringVar(&dumpDir, "dump", "", "directory for SMT files")
	flag.BoolVar(&debugPanics, "debug", false, "print stack on internal errors")
	flag.BoolVar(&debugTime, "times", false, "print timing of the rounds")
	flag.Parse()
	S, err := loadSpecs(*cdir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	ov, err := overlayFiles(filepath.Join(*cdir, "lemmas"), *repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	P, err := loadProgram(*repo, ov, S)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *list {
		P.listExternals()
		return
	}
	if *names {
		for _, f := range P.repoFunctions() {
			fmt.Println(P.fnName(f))
		}
		return
	}
	re := regexp.MustCompile(*funcs)
	var jobs []job
	for _, f := range P.repoFunctions() {
		n := P.fnName(f)
		if !re.MatchString(n) {
			continue
		}
		con := P.contractFor(f)
		if con != nil && con.Trusted {
			continue
		}
		if con == nil && (!*sweep || f.Parent() != nil) {
			continue
		}
		if *prop != "" && (con == nil || !hasProp(con, *prop)) {
			continue
		}
		jobs = append(jobs, job{f, con})
	}
	t0 := time.Now()
	reps := runJobs(P, jobs, 8, time.Duration(*final)*time.Second, nil)
	sortReports(reps)
	tot, bad, errs := 0, 0, 0
	for _, r := range reps {
		dumpReport(r, *verbose)
		tot += len(r.Obls)
		bad += len(r.failed())
		if r.Err != "" {
			errs++
		}
	}
	for _, k := range S.Order {
		if c := S.Contracts[k]; !c.Trusted && c.Impls == nil && P.byName[k] == nil && !strings.HasPrefix(k, "io.") && re.MatchString(k) {
			fmt.Println("unbound contract:", k)
		}
	}
	fmt.Printf("%d functions, %d obligations, %d failed, %d errors, %.1fs\n", len(reps), tot, bad, errs, time.Since(t0).Seconds())
}
