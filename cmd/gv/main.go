package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"verif/engine/smt"
	"verif/engine/sym"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gv prove|check …")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "prove":
		prove(os.Args[2:])
	case "check":
		check(os.Args[2:])
	case "replay":
		fs := flag.NewFlagSet("replay", flag.ExitOnError)
		prop := fs.String("prop", "", "property id")
		repo := fs.String("repo", "/repo", "")
		fs.Parse(os.Args[2:])
		seed := 1
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		rr := replay(*repo, "/verif", *prop, seed, nil)
		fmt.Println(rr.Found, rr.Status)
		fmt.Println(rr.Text)
	case "warm":
		warm()
	}
}

func prove(args []string) {
	fs := flag.NewFlagSet("prove", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	pkg := fs.String("pkg", "", "package")
	run := fs.String("run", "", "substring of proof name")
	trace := fs.Bool("trace", false, "")
	budget := fs.Duration("budget", 300*time.Second, "")
	all := fs.Bool("v", false, "list obligations")
	prof := fs.String("prof", "", "cpu profile")
	fs.Parse(args)
	defer func() {
		var ks []string
		for k := range smt.QTime {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return smt.QTime[ks[i]] > smt.QTime[ks[j]] })
		for i, k := range ks {
			if i < 25 {
				fmt.Println(smt.QTime[k], smt.QNum[k], k)
			}
		}
	}()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	e, err := sym.Load(*repo, *verif, repoPkgs(*repo))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer e.Close()
	fmt.Printf("loaded in %v\n", e.LoadTime)
	for _, b := range e.Broken {
		fmt.Println("BROKEN", b)
	}
	for _, fn := range e.Proofs(*pkg) {
		if !strings.Contains(fn.Name(), *run) {
			continue
		}
		r := e.Verify(fn, *budget, *trace)
		st := "ok"
		if len(r.Failed) > 0 {
			st = "FAIL"
		}
		fmt.Printf("%-4s %-30s obls %4d  %6dms  queries %d solver %dms fb %dms %v loops %d\n", st, r.Name, len(r.Obls), r.Ms, r.Queries, r.SolverMs, r.FallbackMs, r.Backends, r.Loops)
		if *all {
			for _, o := range r.Obls {
				fmt.Printf("    %v %s %s %s %dms\n", o.OK, o.Name, o.Pos, o.Backend, o.Ms)
			}
		}
		for i, o := range r.Failed {
			if i > 8 {
				fmt.Printf("    … %d more\n", len(r.Failed)-i)
				break
			}
			fmt.Printf("    FAILED %s at %s [%s] %s\n", o.Name, o.Pos, o.Status, o.Detail)
		}
	}
}

// warm fills the build cache: export data for the loader and test binaries for the replay drivers.
func warm() {
	if e, err := sym.Load("/repo", "/verif", repoPkgs("/repo")); err == nil {
		e.Close()
	} else {
		fmt.Fprintln(os.Stderr, err)
	}
	replay("/repo", "/verif", "NONE", 1, nil)
}
